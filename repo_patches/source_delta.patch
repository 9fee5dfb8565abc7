From 6cf8d4159ed0e67dbd00067cd952447f81912b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 001/107] fix: propagate errors of sub-parsers, token matches
 and setters out of the header parsers

A header parser that ignored a failed Match, HeaderName, sub-parser or setter
went on with a stale or nil token: malformed headers were accepted, looped
forever or panicked. Every such error is now returned. The header-name keyword
table is actually selected, and compact names known to the factory are in it.
---
 core/CoreLexer.go                      |  22 +++-
 core/CoreParser.go                     |   4 +-
 core/ParameterNames.go                 |   2 +
 sip/parser/AcceptEncodingParser.go     |  32 +++--
 sip/parser/AcceptLanguageParser.go     |  28 +++--
 sip/parser/AcceptParser.go             |  40 ++++--
 sip/parser/AddressParser.go            |  16 ++-
 sip/parser/AlertInfoParser.go          |  24 +++-
 sip/parser/AllowEventsParser.go        |  28 +++--
 sip/parser/AllowParser.go              |  28 +++--
 sip/parser/AuthenticationInfoParser.go |  20 ++-
 sip/parser/AuthorizationParser.go      |   4 +-
 sip/parser/CSeqParser.go               |  12 +-
 sip/parser/CallIdParser.go             |   8 +-
 sip/parser/CallInfoParser.go           |  32 +++--
 sip/parser/ChallengeParser.go          |   8 +-
 sip/parser/ContactParser.go            |  16 ++-
 sip/parser/ContentDispositionParser.go |  16 ++-
 sip/parser/ContentEncodingParser.go    |  24 +++-
 sip/parser/ContentLanguageParser.go    |  16 ++-
 sip/parser/ContentLengthParser.go      |   8 +-
 sip/parser/ContentTypeParser.go        |  28 +++--
 sip/parser/DateParser.go               |   4 +-
 sip/parser/ErrorInfoParser.go          |  24 +++-
 sip/parser/EventParser.go              |  16 ++-
 sip/parser/ExpiresParser.go            |  16 ++-
 sip/parser/FromParser.go               |   8 +-
 sip/parser/HeaderParser.go             |  19 +--
 sip/parser/InReplyToParser.go          |  50 +++++---
 sip/parser/MaxForwardsParser.go        |   8 +-
 sip/parser/MimeVersionParser.go        |  20 ++-
 sip/parser/MinExpiresParser.go         |  12 +-
 sip/parser/OrganizationParser.go       |  13 +-
 sip/parser/ParametersParser.go         |   8 +-
 sip/parser/ParserFactory.go            |   2 +
 sip/parser/PriorityParser.go           |  16 ++-
 sip/parser/ProxyAuthenticateParser.go  |   4 +-
 sip/parser/ProxyAuthorizationParser.go |   4 +-
 sip/parser/ProxyRequireParser.go       |  24 +++-
 sip/parser/RAckParser.go               |  24 +++-
 sip/parser/RSeqParser.go               |  12 +-
 sip/parser/ReasonParser.go             |  16 ++-
 sip/parser/RecordRouteParser.go        |  16 ++-
 sip/parser/ReferToParser.go            |   8 +-
 sip/parser/ReplyToParser.go            |   4 +-
 sip/parser/RequestLineParser.go        |   4 +-
 sip/parser/RequireParser.go            |  24 +++-
 sip/parser/RetryAfterParser.go         |  45 +++++--
 sip/parser/RouteParser.go              |  16 ++-
 sip/parser/SIPLexer.go                 |   2 +
 sip/parser/SIPParser.go                |   6 +-
 sip/parser/ServerParser.go             |  11 +-
 sip/parser/SubjectParser.go            |  12 +-
 sip/parser/SubscriptionStateParser.go  |  68 +++++++---
 sip/parser/SupportedParser.go          |  24 +++-
 sip/parser/TimeStampParser.go          |  40 ++++--
 sip/parser/ToParser.go                 |   8 +-
 sip/parser/URLParser.go                | 166 +++++++++++++++++--------
 sip/parser/UnsupportedParser.go        |  24 +++-
 sip/parser/UserAgentParser.go          |  11 +-
 sip/parser/ViaParser.go                |  76 +++++------
 sip/parser/WWWAuthenticateParser.go    |   4 +-
 sip/parser/WarningParser.go            |  44 +++++--
 63 files changed, 959 insertions(+), 370 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index d98986b..589f6ee 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -163,7 +163,6 @@ func (coreLexer *CoreLexer) PeekNextToken() (*Token, error) {
 func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 	old := coreLexer.ptr
 	retval := make([]*Token, ntokens)
-	var err error
 	for i := 0; i < ntokens; i++ {
 		tok := &Token{}
 		if coreLexer.StartsId() {
@@ -177,7 +176,8 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 		} else {
 			nextChar, err := coreLexer.GetNextChar()
 			if err != nil {
-				break
+				coreLexer.ptr = old
+				return nil, err
 			}
 			tok.tokenValue += string(nextChar)
 			if coreLexer.IsAlpha(nextChar) {
@@ -192,7 +192,7 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 	}
 	coreLexer.savedPtr = coreLexer.ptr
 	coreLexer.ptr = old
-	return retval, err
+	return retval, nil
 }
 
 /** Match the given token or throw an exception if no such token
@@ -244,6 +244,8 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 			coreLexer.currentMatch.tokenValue = string(next)
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
+		} else {
+			return nil, errors.New("ParseException: Unknown character class")
 		}
 	} else {
 		// This is a direct character spec.
@@ -359,9 +361,12 @@ func (coreLexer *CoreLexer) QuotedString() (s string, err error) {
 	var retval bytes.Buffer
 	var next byte
 
-	if next, err = coreLexer.LookAheadK(0); next != '"' || err != nil {
+	if next, err = coreLexer.LookAheadK(0); err != nil {
 		return "", err
 	}
+	if next != '"' {
+		return "", errors.New("ParseException: Expecting quoted string")
+	}
 	coreLexer.ConsumeK(1)
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
@@ -374,7 +379,9 @@ func (coreLexer *CoreLexer) QuotedString() (s string, err error) {
 			// 	return "", errors.New("ParseException: unexpected EOL")
 		} else if next == '\\' {
 			retval.WriteByte(next)
-			next, _ = coreLexer.GetNextChar()
+			if next, err = coreLexer.GetNextChar(); err != nil {
+				break
+			}
 			retval.WriteByte(next)
 		} else {
 			retval.WriteByte(next)
@@ -388,9 +395,12 @@ func (coreLexer *CoreLexer) Comment() (s string, err error) {
 	var retval bytes.Buffer
 	var next byte
 
-	if next, err = coreLexer.LookAheadK(0); next != '(' || err != nil {
+	if next, err = coreLexer.LookAheadK(0); err != nil {
 		return "", err
 	}
+	if next != '(' {
+		return "", errors.New("ParseException: Expecting comment")
+	}
 	coreLexer.ConsumeK(1)
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
diff --git a/core/CoreParser.go b/core/CoreParser.go
index 7aa0595..bd771a9 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -53,7 +53,9 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 		var str string
 
 		if la, err = coreParser.lexer.LookAheadK(0); la == '"' && err == nil {
-			str, _ = coreParser.lexer.QuotedString()
+			if str, ParseException = coreParser.lexer.QuotedString(); ParseException != nil {
+				return nil, ParseException
+			}
 			quoted = true
 		} else {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
diff --git a/core/ParameterNames.go b/core/ParameterNames.go
index 0833e80..0f88288 100644
--- a/core/ParameterNames.go
+++ b/core/ParameterNames.go
@@ -87,6 +87,8 @@ const SIPHeaderNames_S = "S"
 const SIPHeaderNames_T = "T"
 const SIPHeaderNames_V = "V"
 const SIPHeaderNames_R = "R"
+const SIPHeaderNames_O = "O"
+const SIPHeaderNames_U = "U"
 
 const SIPMethodNames_INVITE = "INVITE"
 const SIPMethodNames_ACK = "ACK"
diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 896aa62..c6841f8 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -62,7 +62,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// empty body is fine for this header.
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
@@ -72,19 +74,31 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
-				acceptEncoding.SetEncoding(value.GetTokenValue())
+				if ParseException = acceptEncoding.SetEncoding(value.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-				lexer.Match(';')
+				if _, ParseException = lexer.Match(';'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('q')
+				if _, ParseException = lexer.Match('q'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('=')
+				if _, ParseException = lexer.Match('='); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 
 				var qv float64
@@ -99,7 +113,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 			acceptEncodingList.PushBack(acceptEncoding)
 			if ch, _ = lexer.LookAheadK(0); ch == ',' {
-				lexer.Match(',')
+				if _, ParseException = lexer.Match(','); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
 			}
 
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index cab954d..016a372 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -56,25 +56,37 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
 		if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
 
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(';')
+			if _, ParseException = lexer.Match(';'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('q')
+			if _, ParseException = lexer.Match('q'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 
 			var qv float64
@@ -91,7 +103,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 		acceptLanguageList.PushBack(acceptLanguage)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 705d87d..4c22943 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -47,39 +47,59 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	accept := header.NewAccept()
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token = lexer.GetNextToken()
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
 
-	this.ParametersParser.Parse(accept)
+	if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+		return nil, ParseException
+	}
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		accept = header.NewAccept()
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
-		lexer.Match('/')
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match('/'); ParseException != nil {
+			return nil, ParseException
+		}
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
-		this.ParametersParser.Parse(accept)
+		if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+			return nil, ParseException
+		}
 		acceptList.PushBack(accept)
 
 	}
diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index ee6cfc6..a9cd619 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -47,7 +47,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 	lexer := this.GetLexer()
 
 	if ch, _ = lexer.LookAheadK(0); ch == '<' {
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SelectLexer("sip_urlLexer")
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
@@ -58,7 +60,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	} else {
 		addr = address.NewAddressImpl()
@@ -75,7 +79,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			}
 		}
 		addr.SetDisplayName(strings.TrimSpace(name))
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
@@ -84,7 +90,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	}
 }
diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 59550d3..65b01d5 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -50,20 +50,26 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALERT_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ALERT_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		alertInfo := header.NewAlertInfo()
 		alertInfo.SetHeaderName(core.SIPHeaderNames_ALERT_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		alertInfo.SetAlertInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
@@ -72,17 +78,23 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		alertInfoList.PushBack(alertInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			alertInfo = header.NewAlertInfo()
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			alertInfo.SetAlertInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index f22555b..8b31670 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -40,33 +40,47 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW_EVENTS)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW_EVENTS); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowEvents := header.NewAllowEvents()
 	allowEvents.SetHeaderName(core.SIPHeaderNames_ALLOW_EVENTS)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
-	allowEvents.SetEventType(token.GetTokenValue())
+	if ParseException = allowEvents.SetEventType(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowEventsList.PushBack(allowEvents)
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allowEvents = header.NewAllowEvents()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
-		allowEvents.SetEventType(token.GetTokenValue())
+		if ParseException = allowEvents.SetEventType(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		allowEventsList.PushBack(allowEvents)
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowEventsList, nil
 }
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 395c987..c2e9772 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -40,32 +40,46 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allow := header.NewAllow()
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
-	allow.SetMethod(token.GetTokenValue())
+	if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowList.PushBack(allow)
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allow = header.NewAllow()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
-		allow.SetMethod(token.GetTokenValue())
+		if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		allowList.PushBack(allow)
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowList, nil
 }
diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index 3959051..dd3ee9d 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -39,7 +39,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	var ch byte
 	var nv *core.NameValue
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_AUTHENTICATION_INFO)
+	if ParseException = this.HeaderName(TokenTypes_AUTHENTICATION_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	authenticationInfo := header.NewAuthenticationInfo()
 	authenticationInfo.SetHeaderName(core.SIPHeaderNames_AUTHENTICATION_INFO)
@@ -49,22 +51,30 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	if nv, ParseException = this.NameValue('='); ParseException != nil {
 		return nil, ParseException
 	}
-	authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+	if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
-		authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+		if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+			return nil, ParseException
+		}
 
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return authenticationInfo, nil
 }
diff --git a/sip/parser/AuthorizationParser.go b/sip/parser/AuthorizationParser.go
index ef04392..038cecc 100644
--- a/sip/parser/AuthorizationParser.go
+++ b/sip/parser/AuthorizationParser.go
@@ -34,7 +34,9 @@ func NewAuthorizationParserFromLexer(lexer core.Lexer) *AuthorizationParser {
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *AuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	auth := header.NewAuthorization()
 	ParseException = this.ChallengeParser.Parse(auth)
 	return auth, ParseException
diff --git a/sip/parser/CSeqParser.go b/sip/parser/CSeqParser.go
index 8f3c5fa..a74894c 100644
--- a/sip/parser/CSeqParser.go
+++ b/sip/parser/CSeqParser.go
@@ -29,9 +29,13 @@ func NewCSeqParserFromLexer(lexer core.Lexer) *CSeqParser {
 
 func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_CSEQ)
+	if _, ParseException = lexer.Match(TokenTypes_CSEQ); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	var number int
@@ -45,7 +49,9 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	}
 	//c.SetMethod(m);
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	c := header.NewCSeq(number, method)
 
diff --git a/sip/parser/CallIdParser.go b/sip/parser/CallIdParser.go
index afc7375..9b1c8fa 100644
--- a/sip/parser/CallIdParser.go
+++ b/sip/parser/CallIdParser.go
@@ -44,9 +44,13 @@ func NewCallIDParserFromLexer(lexer core.Lexer) *CallIDParser {
  */
 func (this *CallIDParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_CALL_ID)
+	if _, ParseException = lexer.Match(TokenTypes_CALL_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	rest := strings.TrimSpace(lexer.GetRest())
 
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index a798f87..68412e2 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -42,42 +42,58 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CALL_INFO)
+	if ParseException = this.HeaderName(TokenTypes_CALL_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		callInfo := header.NewCallInfo()
 		callInfo.SetHeaderName(core.SIPHeaderNames_CALL_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		callInfo.SetInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
-		this.ParametersParser.Parse(callInfo)
+		if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+			return nil, ParseException
+		}
 		callInfoList.PushBack(callInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			callInfo = header.NewCallInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			callInfo.SetInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
-			this.ParametersParser.Parse(callInfo)
+			if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+				return nil, ParseException
+			}
 			callInfoList.PushBack(callInfo)
 		}
 	}
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index 4b273c4..fd00ced 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -59,7 +59,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	lexer := this.GetLexer()
 	// the Scheme:
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	h.SetScheme(t.GetTokenValue())
@@ -73,7 +75,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 		if ch, ParseException = lexer.LookAheadK(0); ch == '\n' || ParseException != nil { //||ch=='\0'
 			break
 		}
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 	}
 	return nil
diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index b7bb1e8..5657128 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -31,11 +31,15 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	// past the header name and the colon.
 	lexer := this.GetLexer()
 	var la byte
-	this.HeaderName(TokenTypes_CONTACT)
+	if ParseException = this.HeaderName(TokenTypes_CONTACT); ParseException != nil {
+		return nil, ParseException
+	}
 	for {
 		contact := header.NewContact()
 		if la, _ = lexer.LookAheadK(0); la == '*' {
-			lexer.Match('*')
+			if _, ParseException = lexer.Match('*'); ParseException != nil {
+				return nil, ParseException
+			}
 			contact.SetWildCardFlag(true)
 		} else {
 			if ParseException = this.AddressParametersParser.Parse(contact); ParseException != nil {
@@ -48,10 +52,14 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 				}
 			}
 		}
-		retval.AddContact(contact)
+		if ParseException = retval.AddContact(contact); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 		if la, _ = lexer.LookAheadK(0); la == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if la, _ = lexer.LookAheadK(0); la == '\n' {
 			break
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 018d5a0..e9e9ccf 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -36,23 +36,31 @@ func NewContentDispositionParserFromLexer(lexer core.Lexer) *ContentDispositionP
  */
 func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_DISPOSITION)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_DISPOSITION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	cd := header.NewContentDisposition()
 	cd.SetHeaderName(core.SIPHeaderNames_CONTENT_DISPOSITION)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 
 	token := lexer.GetNextToken()
-	cd.SetDispositionType(token.GetTokenValue())
+	if ParseException = cd.SetDispositionType(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if ParseException = this.ParametersParser.Parse(cd); ParseException != nil {
 		return nil, ParseException
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return cd, nil
 }
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 558b19f..fbc3e48 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -39,29 +39,41 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentEncoding()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
-		cl.SetEncoding(token.GetTokenValue())
+		if ParseException = cl.SetEncoding(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		lexer.SPorHT()
 		contentEncodingList.PushBack(cl)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentEncoding()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
-			cl.SetEncoding(token.GetTokenValue())
+			if ParseException = cl.SetEncoding(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			contentEncodingList.PushBack(cl)
 		}
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index aa526aa..7d92952 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -39,14 +39,18 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentLanguage()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetContentLanguage(token.GetTokenValue())
@@ -56,9 +60,13 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentLanguage()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetContentLanguage(token.GetTokenValue())
diff --git a/sip/parser/ContentLengthParser.go b/sip/parser/ContentLengthParser.go
index eb1ffbf..6207c1f 100644
--- a/sip/parser/ContentLengthParser.go
+++ b/sip/parser/ContentLengthParser.go
@@ -27,7 +27,9 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 	var number int
 	contentLength := header.NewContentLength()
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LENGTH)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LENGTH); ParseException != nil {
+		return nil, ParseException
+	}
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
@@ -35,6 +37,8 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return contentLength, nil
 }
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index d298c81..9cf2138 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -27,24 +27,38 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	contentType := header.NewContentType()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_TYPE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_TYPE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// The type:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
-	contentType.SetContentType(t.GetTokenValue())
+	if ParseException = contentType.SetContentType(t.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// The sub-type:
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	subType := lexer.GetNextToken()
 	lexer.SPorHT()
-	contentType.SetContentSubType(subType.GetTokenValue())
+	if ParseException = contentType.SetContentSubType(subType.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 	if ParseException = this.ParametersParser.Parse(contentType); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentType, nil
 }
diff --git a/sip/parser/DateParser.go b/sip/parser/DateParser.go
index e216dc6..abcda2e 100644
--- a/sip/parser/DateParser.go
+++ b/sip/parser/DateParser.go
@@ -36,7 +36,9 @@ func NewDateParserFromLexer(lexer core.Lexer) *DateParser {
  */
 func (this *DateParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_DATE)
+	if ParseException = this.HeaderName(TokenTypes_DATE); ParseException != nil {
+		return nil, ParseException
+	}
 	var t time.Time
 	if t, ParseException = time.Parse(time.RFC1123, strings.TrimSpace(lexer.GetRest())); ParseException != nil {
 		return nil, ParseException
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 12350e0..18c3b9b 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -44,20 +44,26 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ERROR_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ERROR_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		errorInfo := header.NewErrorInfo()
 		errorInfo.SetHeaderName(core.SIPHeaderNames_ERROR_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		errorInfo.SetErrorInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
@@ -66,19 +72,25 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		errorInfoList.PushBack(errorInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			errorInfo = header.NewErrorInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			errorInfo.SetErrorInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index e3a5375..d1798d3 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -36,21 +36,29 @@ func NewEventParserFromLexer(lexer core.Lexer) *EventParser {
  */
 func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_EVENT)
+	if ParseException = this.HeaderName(TokenTypes_EVENT); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	event := header.NewEvent()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
-	event.SetEventType(value)
+	if ParseException = event.SetEventType(value); ParseException != nil {
+		return nil, ParseException
+	}
 	if ParseException = this.ParametersParser.Parse(event); ParseException != nil {
 		return nil, ParseException
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return event, nil
 }
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index a2b8443..f940f17 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -37,16 +37,24 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	expires := header.NewExpires()
 
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_EXPIRES)
+	if _, ParseException = lexer.Match(TokenTypes_EXPIRES); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	var delta int64
 	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
 		return nil, ParseException
 	}
-	expires.SetExpires(int(delta))
+	if ParseException = expires.SetExpires(int(delta)); ParseException != nil {
+		return nil, ParseException
+	}
 	return expires, ParseException
 }
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index c7aa786..05ab4cb 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -30,13 +30,17 @@ func NewFromParserFromLexer(lexer core.Lexer) *FromParser {
 
 func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 	from := header.NewFrom()
-	this.HeaderName(TokenTypes_FROM)
+	if ParseException = this.HeaderName(TokenTypes_FROM); ParseException != nil {
+		return nil, ParseException
+	}
 
 	if ParseException = this.AddressParametersParser.Parse(from); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	addr := from.GetAddress().(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
 		// the parameters are header parameters.
diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index e10bf88..f571d79 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -25,7 +25,7 @@ func NewHeaderParser(header string) *HeaderParser {
 	this := &HeaderParser{}
 
 	this.SIPParser.super(header)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 
 	return this
 }
@@ -34,19 +34,19 @@ func NewHeaderParserFromLexer(lexer core.Lexer) *HeaderParser {
 	this := &HeaderParser{}
 
 	this.SIPParser.SetLexer(lexer)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 
 	return this
 }
 
 func (this *HeaderParser) super(header string) {
 	this.SIPParser.super(header)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 }
 
 func (this *HeaderParser) superFromLexer(lexer core.Lexer) {
 	this.SetLexer(lexer)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 }
 
 /** Parse the SIP header from the buffer and return a parsed
@@ -70,9 +70,14 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 
 /** Parse the header name until the colon  and chew WS after that.
  */
-func (this *HeaderParser) HeaderName(tok int) {
-	this.GetLexer().Match(tok)
+func (this *HeaderParser) HeaderName(tok int) (ParseException error) {
+	if _, ParseException = this.GetLexer().Match(tok); ParseException != nil {
+		return ParseException
+	}
 	this.GetLexer().SPorHT()
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return ParseException
+	}
 	this.GetLexer().SPorHT()
+	return nil
 }
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index e28bba5..af18d99 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -38,22 +38,33 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_IN_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_IN_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			lexer.Match('@')
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match('@'); ParseException != nil {
+				return nil, ParseException
+			}
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secToken := lexer.GetNextToken()
-			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-				secToken.GetTokenValue())
+			if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" + secToken.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
-			inReplyTo.SetCallId(token.GetTokenValue())
+			if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 		}
 
 		lexer.SPorHT()
@@ -61,21 +72,32 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyToList.PushBack(inReplyTo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			inReplyTo = header.NewInReplyTo()
 
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				lexer.Match('@')
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match('@'); ParseException != nil {
+					return nil, ParseException
+				}
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				secToken := lexer.GetNextToken()
-				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-					secToken.GetTokenValue())
+				if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" + secToken.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 			} else {
-				inReplyTo.SetCallId(token.GetTokenValue())
+				if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 			}
 
 			inReplyToList.PushBack(inReplyTo)
diff --git a/sip/parser/MaxForwardsParser.go b/sip/parser/MaxForwardsParser.go
index ed4bd0b..42d8d5b 100644
--- a/sip/parser/MaxForwardsParser.go
+++ b/sip/parser/MaxForwardsParser.go
@@ -28,7 +28,9 @@ func (this *MaxForwardsParser) super(hname string) {
 
 func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error) {
 	contentLength := header.NewMaxForwards()
-	this.HeaderName(TokenTypes_MAX_FORWARDS)
+	if ParseException = this.HeaderName(TokenTypes_MAX_FORWARDS); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer := this.GetLexer()
 
 	var number int
@@ -39,7 +41,9 @@ func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentLength, nil
 }
diff --git a/sip/parser/MimeVersionParser.go b/sip/parser/MimeVersionParser.go
index 6b74bfb..5d0e7f6 100644
--- a/sip/parser/MimeVersionParser.go
+++ b/sip/parser/MimeVersionParser.go
@@ -37,7 +37,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	mimeVersion := header.NewMimeVersion()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIME_VERSION)
+	if ParseException = this.HeaderName(TokenTypes_MIME_VERSION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	mimeVersion.SetHeaderName(core.SIPHeaderNames_MIME_VERSION)
 
@@ -45,16 +47,24 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	if majorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMajorVersion(majorVersion)
-	lexer.Match('.')
+	if ParseException = mimeVersion.SetMajorVersion(majorVersion); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match('.'); ParseException != nil {
+		return nil, ParseException
+	}
 	if minorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMinorVersion(minorVersion)
+	if ParseException = mimeVersion.SetMinorVersion(minorVersion); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return mimeVersion, nil
 }
diff --git a/sip/parser/MinExpiresParser.go b/sip/parser/MinExpiresParser.go
index 05c5f54..396c0a9 100644
--- a/sip/parser/MinExpiresParser.go
+++ b/sip/parser/MinExpiresParser.go
@@ -37,7 +37,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 	minExpires := header.NewMinExpires()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIN_EXPIRES)
+	if ParseException = this.HeaderName(TokenTypes_MIN_EXPIRES); ParseException != nil {
+		return nil, ParseException
+	}
 
 	minExpires.SetHeaderName(core.SIPHeaderNames_MIN_EXPIRES)
 
@@ -46,11 +48,15 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	minExpires.SetExpires(number)
+	if ParseException = minExpires.SetExpires(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return minExpires, nil
 }
diff --git a/sip/parser/OrganizationParser.go b/sip/parser/OrganizationParser.go
index bf0403b..50eae2b 100644
--- a/sip/parser/OrganizationParser.go
+++ b/sip/parser/OrganizationParser.go
@@ -38,14 +38,19 @@ func (this *OrganizationParser) Parse() (sh header.Header, ParseException error)
 	organization := header.NewOrganization()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ORGANIZATION)
+	if ParseException = this.HeaderName(TokenTypes_ORGANIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	organization.SetHeaderName(core.SIPHeaderNames_ORGANIZATION)
 
 	lexer.SPorHT()
-	value := lexer.GetRest()
-
-	organization.SetOrganization(strings.TrimSpace(value))
+	// An empty organization is allowed (RFC 3261 section 20.25).
+	if value := strings.TrimSpace(lexer.GetRest()); value != "" {
+		if ParseException = organization.SetOrganization(value); ParseException != nil {
+			return nil, ParseException
+		}
+	}
 
 	return organization, nil
 }
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index e14e7ae..64fe621 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -52,9 +52,13 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		}
 
 		if nv.IsValueQuoted() {
-			parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
+			if ParseException = parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\""); ParseException != nil {
+				return ParseException
+			}
 		} else {
-			parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string))
+			if ParseException = parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+				return ParseException
+			}
 		}
 
 		// eat white space
diff --git a/sip/parser/ParserFactory.go b/sip/parser/ParserFactory.go
index ee14e16..819b50b 100644
--- a/sip/parser/ParserFactory.go
+++ b/sip/parser/ParserFactory.go
@@ -147,6 +147,8 @@ func CreateParser(line string) (parser Parser, ParseException error) {
 		parser = NewAcceptParser(line)
 	case strings.ToLower(core.SIPHeaderNames_REFER_TO):
 		parser = NewReferToParser(line)
+	case "r":
+		parser = NewReferToParser(line)
 	default:
 		// Just generate a generic SIPHeader. We define
 		// parsers only for the above.
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 9c672be..255a91b 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -37,18 +37,26 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	priority := header.NewPriority()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PRIORITY)
+	if ParseException = this.HeaderName(TokenTypes_PRIORITY); ParseException != nil {
+		return nil, ParseException
+	}
 
 	priority.SetHeaderName(core.SIPHeaderNames_PRIORITY)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 
-	priority.SetPriority(token.GetTokenValue())
+	if ParseException = priority.SetPriority(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return priority, nil
 }
diff --git a/sip/parser/ProxyAuthenticateParser.go b/sip/parser/ProxyAuthenticateParser.go
index cf27453..d47b616 100644
--- a/sip/parser/ProxyAuthenticateParser.go
+++ b/sip/parser/ProxyAuthenticateParser.go
@@ -34,7 +34,9 @@ func NewProxyAuthenticateParserFromLexer(lexer core.Lexer) *ProxyAuthenticatePar
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuthenticate := header.NewProxyAuthenticate()
 	ParseException = this.ChallengeParser.Parse(proxyAuthenticate)
 	return proxyAuthenticate, ParseException
diff --git a/sip/parser/ProxyAuthorizationParser.go b/sip/parser/ProxyAuthorizationParser.go
index 88fc298..e5592ac 100644
--- a/sip/parser/ProxyAuthorizationParser.go
+++ b/sip/parser/ProxyAuthorizationParser.go
@@ -34,7 +34,9 @@ func NewProxyAuthorizationParserFromLexer(lexer core.Lexer) *ProxyAuthorizationP
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuth := header.NewProxyAuthorization()
 	ParseException = this.ChallengeParser.Parse(proxyAuth)
 	return proxyAuth, ParseException
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 69fbaec..139a8a7 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -38,30 +38,42 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PROXY_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewProxyRequire()
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
-		r.SetOptionTag(token.GetTokenValue())
+		if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		proxyRequireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewProxyRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
-			r.SetOptionTag(token.GetTokenValue())
+			if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			proxyRequireList.PushBack(r)
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index b0adc17..478006a 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -37,7 +37,9 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	rack := header.NewRAck()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RACK)
+	if ParseException = this.HeaderName(TokenTypes_RACK); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rack.SetHeaderName(core.SIPHeaderNames_RACK)
 
@@ -45,19 +47,29 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetRSeqNumber(number)
+	if ParseException = rack.SetRSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetCSeqNumber(number)
+	if ParseException = rack.SetCSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
-	rack.SetMethod(token.GetTokenValue())
+	if ParseException = rack.SetMethod(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rack, nil
 }
diff --git a/sip/parser/RSeqParser.go b/sip/parser/RSeqParser.go
index ae7f2aa..ecd4888 100644
--- a/sip/parser/RSeqParser.go
+++ b/sip/parser/RSeqParser.go
@@ -37,7 +37,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	rseq := header.NewRSeq()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RSEQ)
+	if ParseException = this.HeaderName(TokenTypes_RSEQ); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rseq.SetHeaderName(core.SIPHeaderNames_RSEQ)
 
@@ -45,10 +47,14 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rseq.SetSequenceNumber(number)
+	if ParseException = rseq.SetSequenceNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rseq, nil
 }
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index c6ae3d8..5962792 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -38,21 +38,29 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REASON)
+	if ParseException = this.HeaderName(TokenTypes_REASON); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		reason := header.NewReason()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
-		reason.SetProtocol(value)
+		if ParseException = reason.SetProtocol(value); ParseException != nil {
+			return nil, ParseException
+		}
 		if ParseException = this.ParametersParser.Parse(reason); ParseException != nil {
 			return nil, ParseException
 		}
 		reasonList.PushBack(reason)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index f6e07b3..9c52b4b 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -35,17 +35,25 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_RECORD_ROUTE)
+	if _, ParseException = lexer.Match(TokenTypes_RECORD_ROUTE); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for {
 		recordRoute := header.NewRecordRoute()
-		this.AddressParametersParser.Parse(recordRoute)
+		if ParseException = this.AddressParametersParser.Parse(recordRoute); ParseException != nil {
+			return nil, ParseException
+		}
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/ReferToParser.go b/sip/parser/ReferToParser.go
index 7985945..a81ac34 100644
--- a/sip/parser/ReferToParser.go
+++ b/sip/parser/ReferToParser.go
@@ -28,11 +28,15 @@ func NewReferToParserFromLexer(lexer core.Lexer) *ReferToParser {
 
 func (this *ReferToParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REFER_TO)
+	if ParseException = this.HeaderName(TokenTypes_REFER_TO); ParseException != nil {
+		return nil, ParseException
+	}
 	referTo := header.NewReferTo()
 	if ParseException = this.AddressParametersParser.Parse(referTo); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return referTo, nil
 }
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index b6e0a60..4d238e0 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -37,7 +37,9 @@ func NewReplyToParserFromLexer(lexer core.Lexer) *ReplyToParser {
 func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 	replyTo := header.NewReplyTo()
 
-	this.HeaderName(TokenTypes_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
diff --git a/sip/parser/RequestLineParser.go b/sip/parser/RequestLineParser.go
index ce3b8bd..ed1c3f0 100644
--- a/sip/parser/RequestLineParser.go
+++ b/sip/parser/RequestLineParser.go
@@ -52,7 +52,9 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 	}
 	retval.SetSipVersion(v)
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return retval, nil
 }
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index d740287..ed81abc 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -38,30 +38,42 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewRequire()
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
-		r.SetOptionTag(token.GetTokenValue())
+		if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		requireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
-			r.SetOptionTag(token.GetTokenValue())
+			if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			requireList.PushBack(r)
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index e865ef4..d8a9a6b 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -38,45 +38,68 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RETRY_AFTER)
+	if ParseException = this.HeaderName(TokenTypes_RETRY_AFTER); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// mandatory delatseconds:
 	var ds int
 	if ds, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	retryAfter.SetRetryAfter(ds)
+	if ParseException = retryAfter.SetRetryAfter(ds); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch == '(' {
-		comment, _ := lexer.Comment()
-		retryAfter.SetComment(comment)
+		var comment string
+		if comment, ParseException = lexer.Comment(); ParseException != nil {
+			return nil, ParseException
+		}
+		if ParseException = retryAfter.SetComment(comment); ParseException != nil {
+			return nil, ParseException
+		}
 	}
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if value == "duration" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			var duration int
 			if duration, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
-			retryAfter.SetDuration(duration)
+			if ParseException = retryAfter.SetDuration(duration); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
-			retryAfter.SetParameter(value, secondValue)
+			if ParseException = retryAfter.SetParameter(value, secondValue); ParseException != nil {
+				return nil, ParseException
+			}
 		}
 		lexer.SPorHT()
 	}
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index 03a8258..b523a2b 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -36,17 +36,25 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_ROUTE)
+	if _, ParseException = lexer.Match(TokenTypes_ROUTE); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for {
 		route := header.NewRoute()
-		this.AddressParametersParser.Parse(route)
+		if ParseException = this.AddressParametersParser.Parse(route); ParseException != nil {
+			return nil, ParseException
+		}
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/SIPLexer.go b/sip/parser/SIPLexer.go
index 1cf7eea..1487caa 100644
--- a/sip/parser/SIPLexer.go
+++ b/sip/parser/SIPLexer.go
@@ -132,6 +132,8 @@ func (this *SIPLexer) SelectLexer(lexerName string) {
 			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_T), TokenTypes_TO)
 			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_V), TokenTypes_VIA)
 			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_R), TokenTypes_REFER_TO)
+			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_O), TokenTypes_EVENT)
+			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_U), TokenTypes_ALLOW_EVENTS)
 		} else if lexerName == "status_lineLexer" {
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIP), TokenTypes_SIP)
 		} else if lexerName == "request_lineLexer" {
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 145ab94..12c0157 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -38,7 +38,7 @@ const TokenTypes_RETRY_AFTER = TokenTypes_START + 25
 const TokenTypes_PROXY_REQUIRE = TokenTypes_START + 26
 const TokenTypes_CONTENT_LANGUAGE = TokenTypes_START + 27
 const TokenTypes_UNSUPPORTED = TokenTypes_START + 28
-const TokenTypes_SUPPORTED = TokenTypes_START + 20
+const TokenTypes_SUPPORTED = TokenTypes_START + 29
 const TokenTypes_WARNING = TokenTypes_START + 30
 const TokenTypes_MAX_FORWARDS = TokenTypes_START + 31
 const TokenTypes_DATE = TokenTypes_START + 32
@@ -152,7 +152,9 @@ func (this *SIPParser) SipVersion() (s string, ParseException error) {
 	if tok.GetTokenValue() != "SIP" {
 		return "", this.CreateParseException("Expecting SIP")
 	}
-	this.GetLexer().Match('/')
+	if _, ParseException = this.GetLexer().Match('/'); ParseException != nil {
+		return "", ParseException
+	}
 	if tok, ParseException = this.GetLexer().Match(TokenTypes_ID); ParseException != nil {
 		return "", this.CreateParseException("Expecting SIP/2.0")
 	}
diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 911d84d..f97805d 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -40,7 +40,9 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SERVER)
+	if ParseException = this.HeaderName(TokenTypes_SERVER); ParseException != nil {
+		return nil, ParseException
+	}
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 		return nil, errors.New("empty header")
 	}
@@ -48,7 +50,10 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 	//  mandatory token: product[/product-version] | (comment)
 	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
 		if ch == '(' {
-			comment, _ := lexer.Comment()
+			var comment string
+			if comment, ParseException = lexer.Comment(); ParseException != nil {
+				return nil, ParseException
+			}
 			server.AddProductToken("(" + comment + ")")
 		} else {
 			var tok string
@@ -58,7 +63,7 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 				server.AddProductToken(tok)
 				break
 			} else {
-				if tok[len(tok)-1] == '\n' {
+				if strings.HasSuffix(tok, "\n") {
 					tok = strings.TrimSpace(tok)
 				}
 				server.AddProductToken(tok)
diff --git a/sip/parser/SubjectParser.go b/sip/parser/SubjectParser.go
index b160f0f..cc9fbd0 100644
--- a/sip/parser/SubjectParser.go
+++ b/sip/parser/SubjectParser.go
@@ -38,12 +38,18 @@ func (this *SubjectParser) Parse() (sh header.Header, ParseException error) {
 	subject := header.NewSubject()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBJECT)
+	if ParseException = this.HeaderName(TokenTypes_SUBJECT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
-	s := lexer.GetRest()
-	subject.SetSubject(strings.TrimSpace(s))
+	// An empty subject is allowed (RFC 3261 section 20.36).
+	if s := strings.TrimSpace(lexer.GetRest()); s != "" {
+		if ParseException = subject.SetSubject(s); ParseException != nil {
+			return nil, ParseException
+		}
+	}
 
 	return subject, nil
 }
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 02848ee..b6055e7 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -40,32 +40,52 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBSCRIPTION_STATE)
+	if ParseException = this.HeaderName(TokenTypes_SUBSCRIPTION_STATE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	subscriptionState.SetHeaderName(core.SIPHeaderNames_SUBSCRIPTION_STATE)
 
 	// State:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
-	subscriptionState.SetState(token.GetTokenValue())
+	if ParseException = subscriptionState.SetState(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if strings.ToLower(value) == "reason" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
-			subscriptionState.SetReasonCode(value)
+			if ParseException = subscriptionState.SetReasonCode(value); ParseException != nil {
+				return nil, ParseException
+			}
 		} else if strings.ToLower(value) == "expires" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -73,11 +93,17 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetExpires(expires)
+			if ParseException = subscriptionState.SetExpires(expires); ParseException != nil {
+				return nil, ParseException
+			}
 		} else if strings.ToLower(value) == "retry-after" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -85,14 +111,22 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetRetryAfter(retryAfter)
+			if ParseException = subscriptionState.SetRetryAfter(retryAfter); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
-			subscriptionState.SetParameter(value, secondValue)
+			if ParseException = subscriptionState.SetParameter(value, secondValue); ParseException != nil {
+				return nil, ParseException
+			}
 		}
 
 		lexer.SPorHT()
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 893f2ab..2a61f62 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -38,7 +38,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_SUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,23 +48,33 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supported.SetHeaderName(core.SIPHeaderNames_SUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
-		supported.SetOptionTag(token.GetTokenValue())
+		if ParseException = supported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		supportedList.PushBack(supported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			supported = header.NewSupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
-			supported.SetOptionTag(token.GetTokenValue())
+			if ParseException = supported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			supportedList.PushBack(supported)
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index d0a505c..ac17d63 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -38,53 +38,69 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp := header.NewTimeStamp()
 
 	var ch byte
-	var firstNumber, secondNumber int
+	var firstNumber int
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_TIMESTAMP)
+	if ParseException = this.HeaderName(TokenTypes_TIMESTAMP); ParseException != nil {
+		return nil, ParseException
+	}
 
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
 
+	mark := lexer.MarkInputPosition()
 	if firstNumber, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
 
 	var ts float64
 	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		lexer.Match('.')
+		if _, ParseException = lexer.Match('.'); ParseException != nil {
+			return nil, ParseException
+		}
 
-		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
+		if _, ParseException = lexer.Number(); ParseException != nil {
 			return nil, ParseException
 		}
 
-		s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-		ts, _ = strconv.ParseFloat(s, 32)
+		s := lexer.GetBuffer()[mark:lexer.MarkInputPosition()]
+		if ts, ParseException = strconv.ParseFloat(s, 32); ParseException != nil {
+			return nil, ParseException
+		}
 	} else {
 		ts = float64(firstNumber)
 	}
 
-	timeStamp.SetTimeStamp(float32(ts))
+	if ParseException = timeStamp.SetTimeStamp(float32(ts)); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+		mark = lexer.MarkInputPosition()
 		if firstNumber, ParseException = lexer.Number(); ParseException != nil {
 			return nil, ParseException
 		}
 
 		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			lexer.Match('.')
-			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
+			if _, ParseException = lexer.Match('.'); ParseException != nil {
+				return nil, ParseException
+			}
+			if _, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
 
-			s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-			ts, _ = strconv.ParseFloat(s, 32)
+			s := lexer.GetBuffer()[mark:lexer.MarkInputPosition()]
+			if ts, ParseException = strconv.ParseFloat(s, 32); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
 			ts = float64(firstNumber)
 		}
 
-		timeStamp.SetDelay(float32(ts))
+		if ParseException = timeStamp.SetDelay(float32(ts)); ParseException != nil {
+			return nil, ParseException
+		}
 	}
 
 	return timeStamp, nil
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index 92d7c93..ab82e89 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -28,13 +28,17 @@ func NewToParserFromLexer(lexer core.Lexer) *ToParser {
 
 func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 	to := header.NewTo()
-	this.HeaderName(TokenTypes_TO)
+	if ParseException = this.HeaderName(TokenTypes_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	if ParseException = this.AddressParametersParser.Parse(to); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	addr := to.GetAddress().(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
 		// the parameters are header parameters.
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed56f36..6182a82 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
-	"strings"
 )
 
 /** SIPParser For SIP and Tel URLs. Other kinds of URL's are handled by the
@@ -196,7 +195,7 @@ func (this *URLParser) Uric() string {
 func (this *URLParser) UricNoSlash() string {
 	la, _ := this.GetLexer().LookAheadK(0)
 	if this.IsEscaped() {
-		retval := this.GetLexer().CharAsString(3)
+		retval := this.GetLexer().NCharAsString(3)
 		this.GetLexer().ConsumeK(3)
 		return retval
 	} else if this.IsUnreserved(la) {
@@ -229,12 +228,17 @@ func (this *URLParser) UricString() string {
  */
 func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	var retval address.URI
-	vect, _ := this.GetLexer().PeekNextTokenK(2)
-	t1 := vect[0]
-	t2 := vect[1]
+	t1, ParseException := this.GetLexer().PeekNextToken()
+	if ParseException != nil {
+		return nil, ParseException
+	}
 
 	if t1.GetTokenType() == TokenTypes_SIP {
-		if t2.GetTokenType() == ':' {
+		vect, err := this.GetLexer().PeekNextTokenK(2)
+		if err != nil {
+			return nil, err
+		}
+		if vect[1].GetTokenType() == ':' {
 			if retval, ParseException = this.SipURL(); ParseException != nil {
 				return nil, ParseException
 			}
@@ -242,7 +246,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 			return nil, this.CreateParseException("Expecting ':'")
 		}
 	} else if t1.GetTokenType() == TokenTypes_TEL {
-		if t2.GetTokenType() == ':' {
+		vect, err := this.GetLexer().PeekNextTokenK(2)
+		if err != nil {
+			return nil, err
+		}
+		if vect[1].GetTokenType() == ':' {
 			if retval, ParseException = this.TelURL(); ParseException != nil {
 				return nil, ParseException
 			}
@@ -312,11 +320,15 @@ func (this *URLParser) ParseTelephoneNumber() (tn *address.TelephoneNumber, Pars
 
 	c, _ := this.GetLexer().LookAheadK(0)
 	if c == '+' {
-		tn, _ = this.Global_phone_number()
+		if tn, ParseException = this.Global_phone_number(); ParseException != nil {
+			return nil, ParseException
+		}
 	} else if this.GetLexer().IsAlpha(c) || this.GetLexer().IsDigit(c) ||
 		c == '-' || c == '*' || c == '.' ||
 		c == '(' || c == ')' || c == '#' {
-		tn, _ = this.Local_phone_number()
+		if tn, ParseException = this.Local_phone_number(); ParseException != nil {
+			return nil, ParseException
+		}
 	} else {
 		return nil, this.CreateParseException("unexpected char " + string(c))
 	}
@@ -328,14 +340,22 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(true)
 
-	this.GetLexer().Match(core.CORELEXER_PLUS)
-	b, _ := this.Base_phone_number()
+	if _, ParseException = this.GetLexer().Match(core.CORELEXER_PLUS); ParseException != nil {
+		return nil, ParseException
+	}
+	var b string
+	if b, ParseException = this.Base_phone_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		}
 	}
@@ -345,14 +365,23 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(false)
-	b, _ := this.Local_number()
+	var b string
+	if b, ParseException = this.Local_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
-		tok, _ := this.GetLexer().PeekNextToken()
+		var tok *core.Token
+		if tok, ParseException = this.GetLexer().PeekNextToken(); ParseException != nil {
+			return nil, ParseException
+		}
 		switch tok.GetTokenType() {
 		case TokenTypes_SEMICOLON:
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		default:
 		}
@@ -370,6 +399,7 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
+			this.GetLexer().ConsumeK(1)
 			continue
 		} else {
 			break
@@ -382,8 +412,12 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
  *@return a parsed tel url structure.
  */
 func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException error) {
-	this.GetLexer().Match(TokenTypes_TEL)
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(TokenTypes_TEL); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	var tn *address.TelephoneNumber
 	if tn, ParseException = this.ParseTelephoneNumber(); ParseException != nil {
@@ -403,43 +437,50 @@ func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException erro
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	this.GetLexer().Match(TokenTypes_SIP)
-	this.GetLexer().Match(':')
-	retval.SetScheme(core.SIPTransportNames_SIP)
+	if _, ParseException = this.GetLexer().Match(TokenTypes_SIP); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
+	if ParseException = retval.SetScheme(core.SIPTransportNames_SIP); ParseException != nil {
+		return nil, ParseException
+	}
 
-	buffer := this.GetLexer().GetRest()
-	if n := strings.Index(buffer, "@"); n == -1 {
-		// hostPort
-		hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-		hp, _ := hnp.GetHostPort()
-		retval.SetHostPort(hp)
+	// userinfo is optional: only the '@' that ends it tells whether it is there
+	var user, password string
+	mark := this.GetLexer().MarkInputPosition()
+	if user, ParseException = this.User(); ParseException != nil {
+		return nil, ParseException
+	}
+	la, _ := this.GetLexer().LookAheadK(0)
+	hasPassword := la == ':'
+	if hasPassword {
+		this.GetLexer().ConsumeK(1)
+		if password, ParseException = this.Password(); ParseException != nil {
+			return nil, ParseException
+		}
+		la, _ = this.GetLexer().LookAheadK(0)
+	}
+	hasUser := la == '@'
+	if hasUser {
+		this.GetLexer().ConsumeK(1)
 	} else {
-		var hp *core.HostPort
-		if n = strings.Index(buffer, ":"); n == -1 {
-			// name@hostPort
-			user, _ := this.User()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetHostPort(hp)
-		} else {
-			user, _ := this.User()
-			// name:password@hostPort
-			this.GetLexer().Match(':')
-			password, _ := this.Password()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
+		this.GetLexer().RewindInputPosition(mark)
+	}
+
+	var hp *core.HostPort
+	hnp := core.NewHostNameParserFromLexer(this.GetLexer())
+	if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
+		return nil, ParseException
+	}
+	if hasUser {
+		retval.SetUser(user)
+		if hasPassword {
 			retval.SetUserPassword(password)
-			retval.SetHostPort(hp)
 		}
 	}
+	retval.SetHostPort(hp)
 	this.GetLexer().SelectLexer("charLexer")
 	for this.GetLexer().HasMoreChars() {
 		if la, _ := this.GetLexer().LookAheadK(0); la != ';' {
@@ -456,7 +497,10 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' {
 		this.GetLexer().ConsumeK(1)
 		for this.GetLexer().HasMoreChars() {
-			parms, _ := this.Qheader()
+			var parms *core.NameValue
+			if parms, ParseException = this.Qheader(); ParseException != nil {
+				return nil, ParseException
+			}
 			retval.SetQHeader(parms)
 			if la, _ = this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la != '&' {
 				break
@@ -469,7 +513,10 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 }
 
 func (this *URLParser) PeekScheme() (s string, ParseException error) {
-	tokens, _ := this.GetLexer().PeekNextTokenK(1)
+	var tokens []*core.Token
+	if tokens, ParseException = this.GetLexer().PeekNextTokenK(1); ParseException != nil {
+		return "", ParseException
+	}
 	if len(tokens) == 0 {
 		return "", nil
 	}
@@ -481,9 +528,14 @@ func (this *URLParser) PeekScheme() (s string, ParseException error) {
  * after the ?).
  */
 func (this *URLParser) Qheader() (nv *core.NameValue, ParseException error) {
-	name, _ := this.GetLexer().GetNextTokenByDelim('=')
+	var name, value string
+	if name, ParseException = this.GetLexer().GetNextTokenByDelim('='); ParseException != nil {
+		return nil, ParseException
+	}
 	this.GetLexer().ConsumeK(1)
-	value, _ := this.Hvalue()
+	if value, ParseException = this.Hvalue(); ParseException != nil {
+		return nil, ParseException
+	}
 	return core.NewNameValue(name, value), nil
 
 }
@@ -501,7 +553,10 @@ func (this *URLParser) Hvalue() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 			retval.WriteByte(la)
 		} else if la == '%' {
-			str, _ := this.Escaped()
+			var str string
+			if str, ParseException = this.Escaped(); ParseException != nil {
+				return "", ParseException
+			}
 			retval.WriteString(str)
 		} else {
 			break
@@ -526,7 +581,7 @@ func (this *URLParser) UrlString() (s string, ParseException error) {
 			la == '>' || la == '<' {
 			break
 		}
-		this.GetLexer().ConsumeK(0)
+		this.GetLexer().ConsumeK(1)
 		retval.WriteByte(la)
 	}
 	return retval.String(), nil
@@ -562,6 +617,7 @@ func (this *URLParser) Password() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
 			esc := this.GetLexer().NCharAsString(3)
+			this.GetLexer().ConsumeK(3)
 			retval.WriteString(esc)
 		} else {
 			break
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index b5d2080..8317100 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -38,7 +38,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_UNSUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_UNSUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,23 +48,33 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupported.SetHeaderName(core.SIPHeaderNames_UNSUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
-		unsupported.SetOptionTag(token.GetTokenValue())
+		if ParseException = unsupported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		unsupportedList.PushBack(unsupported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			unsupported = header.NewUnsupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
-			unsupported.SetOptionTag(token.GetTokenValue())
+			if ParseException = unsupported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			unsupportedList.PushBack(unsupported)
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index ff56946..e6d2209 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -41,7 +41,9 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_USER_AGENT)
+	if ParseException = this.HeaderName(TokenTypes_USER_AGENT); ParseException != nil {
+		return nil, ParseException
+	}
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 		return nil, errors.New("empty header")
 	}
@@ -49,7 +51,10 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 	//  mandatory token: product[/product-version] | (comment)
 	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
 		if ch == '(' {
-			comment, _ := lexer.Comment()
+			var comment string
+			if comment, ParseException = lexer.Comment(); ParseException != nil {
+				return nil, ParseException
+			}
 			userAgent.AddProductToken("(" + comment + ")")
 		} else {
 			var tok string
@@ -59,7 +64,7 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 				userAgent.AddProductToken(strings.TrimSpace(tok))
 				break
 			} else {
-				if tok[len(tok)-1] == '\n' {
+				if strings.HasSuffix(tok, "\n") {
 					tok = strings.TrimSpace(tok)
 				}
 				userAgent.AddProductToken(tok)
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1885fac..0bf46b3 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strings"
@@ -32,7 +31,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var protocolName, protocolVersion *core.Token
 	// The protocol
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 
 	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
 		return this.CreateParseException("Protcoal Not Supported error")
@@ -40,9 +41,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	lexer.SPorHT()
 	// consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 	if protocolVersion = lexer.GetNextToken(); protocolVersion.GetTokenValue() != "2.0" {
 		return this.CreateParseException("Version Not Supported error")
@@ -51,9 +56,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	lexer.SPorHT()
 
 	// We consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 
 	transport := lexer.GetNextToken()
@@ -79,7 +88,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var la byte
 	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 
 		var nameValue *core.NameValue
@@ -95,30 +106,11 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	if la, _ = lexer.LookAheadK(0); la == '(' {
 		lexer.SelectLexer("charLexer")
-		lexer.ConsumeK(1)
-
-		var comment bytes.Buffer
-		for {
-			ch, _ := lexer.LookAheadK(0)
-			if ch == ')' {
-				lexer.ConsumeK(1)
-				break
-			} else if ch == '\\' {
-				// Escaped character
-				tok := lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-				tok = lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-			} else if ch == '\n' {
-				break
-			} else {
-				comment.WriteByte(ch)
-				lexer.ConsumeK(1)
-			}
+		var comment string
+		if comment, ParseException = lexer.Comment(); ParseException != nil {
+			return ParseException
 		}
-		v.SetComment(comment.String())
+		v.SetComment(comment)
 	}
 
 	return nil
@@ -130,7 +122,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
  */
 func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(core.CORELEXER_ID)
+	if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	name := lexer.GetNextToken()
 
 	// eat white space.
@@ -154,7 +148,9 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 				}
 				quoted = true
 			} else {
-				lexer.Match(core.CORELEXER_ID)
+				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				str = value.GetTokenValue()
 			}
@@ -175,10 +171,14 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 	viaList := header.NewViaList()
 
 	// The first via header.
-	lexer.Match(TokenTypes_VIA)
-	lexer.SPorHT()   // ignore blanks
-	lexer.Match(':') // expect a colon.
-	lexer.SPorHT()   // ingore blanks.
+	if _, ParseException = lexer.Match(TokenTypes_VIA); ParseException != nil {
+		return nil, ParseException
+	}
+	lexer.SPorHT()                                                   // ignore blanks
+	if _, ParseException = lexer.Match(':'); ParseException != nil { // expect a colon.
+		return nil, ParseException
+	}
+	lexer.SPorHT() // ingore blanks.
 
 	for {
 		v := header.NewVia()
@@ -195,7 +195,9 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 			break
 		}
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return viaList, nil
 }
diff --git a/sip/parser/WWWAuthenticateParser.go b/sip/parser/WWWAuthenticateParser.go
index d9e0327..429a1cc 100644
--- a/sip/parser/WWWAuthenticateParser.go
+++ b/sip/parser/WWWAuthenticateParser.go
@@ -34,7 +34,9 @@ func NewWWWAuthenticateParserFromLexer(lexer core.Lexer) *WWWAuthenticateParser
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *WWWAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_WWW_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_WWW_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	wwwAuthenticate := header.NewWWWAuthenticate()
 	ParseException = this.ChallengeParser.Parse(wwwAuthenticate)
 	return wwwAuthenticate, ParseException
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 9326331..94b26b6 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -39,14 +39,18 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_WARNING)
+	if ParseException = this.HeaderName(TokenTypes_WARNING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		warning := header.NewWarning()
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
 		// Parsing the 3digits code
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 
 		var code int
@@ -60,9 +64,13 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
-		warning.SetAgent(token.GetTokenValue())
+		if ParseException = warning.SetAgent(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		// Parsing the text
@@ -70,39 +78,53 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		if text, ParseException = lexer.QuotedString(); ParseException != nil {
 			return nil, ParseException
 		}
-		warning.SetText(text)
+		if ParseException = warning.SetText(text); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		warningList.PushBack(warning)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			warning = header.NewWarning()
 
 			// Parsing the 3digits code
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok := lexer.GetNextToken()
 
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetCode(code)
+			if ParseException = warning.SetCode(code); ParseException != nil {
+				return nil, ParseException
+			}
 
 			lexer.SPorHT()
 
 			// Parsing the agent
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok = lexer.GetNextToken()
-			warning.SetAgent(tok.GetTokenValue())
+			if ParseException = warning.SetAgent(tok.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			// Parsing the text
 			if text, ParseException = lexer.QuotedString(); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetText(text)
+			if ParseException = warning.SetText(text); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			warningList.PushBack(warning)
-- 
2.43.0


From ae08c663921bf5641126f2accc81a8d54c1f21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 002/107] fix: accept every kind of URI in Alert-Info and
 Call-Info headers

---
 sip/header/AlertInfoImpl.go | 4 ++--
 sip/header/CallInfoImpl.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index b72f2b4..dbf11c9 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -14,7 +14,7 @@ type AlertInfo struct {
 
 	/** URI field
 	 */
-	uri *address.URIImpl
+	uri address.URI
 }
 
 /** Constructor
@@ -53,7 +53,7 @@ func (this *AlertInfo) EncodeBody() string {
  * @param u URI to set
  */
 func (this *AlertInfo) SetAlertInfo(uri address.URI) {
-	this.uri = uri.(*address.URIImpl)
+	this.uri = uri
 }
 
 /**
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 11c4229..15f65fc 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -14,7 +14,7 @@ import (
 type CallInfo struct {
 	Parameters
 
-	info *address.URIImpl
+	info address.URI
 }
 
 /** Default constructor
@@ -80,5 +80,5 @@ func (this *CallInfo) SetPurpose(purpose string) error {
  * @param info is the URI to set.
  */
 func (this *CallInfo) SetInfo(info address.URI) {
-	this.info = info.(*address.URIImpl)
+	this.info = info
 }
-- 
2.43.0


From 4746f6d66c9f88fe5949ccf5e8b2105bcc2b385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 003/107] fix: find the end of the headers at the very end of
 the buffer and reject unterminated messages

---
 sip/parser/StringMsgParser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 6e02cad..f4e5d5c 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -183,7 +183,7 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 
 	// Find the end of the SIP message.
 	var f int
-	for f = s; f < len(msgBuffer)-4; f++ {
+	for f = s; f <= len(msgBuffer)-4; f++ {
 		if msgBuffer[f] == '\r' &&
 			msgBuffer[f+1] == '\n' &&
 			msgBuffer[f+2] == '\r' &&
@@ -191,17 +191,17 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 			break
 		}
 	}
-	if f < len(msgBuffer) {
+	if f <= len(msgBuffer)-4 {
 		f += 4
 	} else {
 		// Could not find CRLFCRLF end of message so look for LFLF
-		for f = s; f < len(msgBuffer)-2; f++ {
+		for f = s; f <= len(msgBuffer)-2; f++ {
 			if msgBuffer[f] == '\n' &&
 				msgBuffer[f+1] == '\n' {
 				break
 			}
 		}
-		if f < len(msgBuffer) {
+		if f <= len(msgBuffer)-2 {
 			f += 2
 		} else {
 			return nil, errors.New("ParseException: Message not terminated")
@@ -240,6 +240,9 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 
 	message1 := cooked_message.String()
 	length = strings.Index(message1, "\n\n") + 2
+	if length < 2 {
+		return nil, errors.New("ParseException: Message not terminated")
+	}
 
 	// Handle continuations - look for a space or a tab at the start
 	// of the line and append it to the previous line.
-- 
2.43.0


From bf5faaa47a2b38d19d9edcca78467f6bd60c5fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 004/107] fix: do not overflow on a huge Content-Length

---
 sip/parser/StringMsgParser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index f4e5d5c..cda6fdc 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -284,9 +284,8 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	if this.readBody && sipmsg.GetContentLength() != nil && sipmsg.GetContentLength().GetContentLength() != 0 {
 		this.contentLength = sipmsg.GetContentLength().GetContentLength()
 
-		endIndex := this.bufferPointer + this.contentLength
 		// guard against bad specifications.
-		if endIndex > len(this.currentMessageBytes) {
+		if this.contentLength > len(this.currentMessageBytes)-this.bufferPointer {
 			return nil, errors.New("Content Length Larger Than Message")
 		}
 
-- 
2.43.0


From 9f71b34fc9f246b4bced642dd42f0b71c6c541a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 005/107] fix: skip a header whose parse error the listener
 chose to ignore

---
 sip/parser/StringMsgParser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index cda6fdc..7fec3bc 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -389,6 +389,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -400,6 +401,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
-- 
2.43.0


From 03864a793636bc81db9db7cc6b89ac70d6a64c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 006/107] fix: stop ParseSIPUrl, ParseUrl and ParseSIPHeader
 from panicking on the values the parsers return

---
 sip/parser/StringMsgParser.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 7fec3bc..3cc9331 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -474,8 +474,15 @@ func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*add
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error) {
-	sipuri, err := NewURLParser(url).Parse()
-	return sipuri.(*address.SipURIImpl), err
+	uri, err := NewURLParser(url).Parse()
+	if err != nil {
+		return nil, err
+	}
+	sipuri, ok := uri.(*address.SipURIImpl)
+	if !ok {
+		return nil, errors.New("ParseException: not a SIP URL")
+	}
+	return sipuri, nil
 }
 
 /**
@@ -485,8 +492,15 @@ func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
-	guri, err := NewURLParser(url).Parse()
-	return guri.(*address.URIImpl), err
+	uri, err := NewURLParser(url).Parse()
+	if err != nil {
+		return nil, err
+	}
+	guri, ok := uri.(*address.URIImpl)
+	if !ok {
+		return nil, errors.New("ParseException: not a generic URL")
+	}
+	return guri, nil
 }
 
 /**
@@ -495,7 +509,7 @@ func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
  * @return a SIPHeader structure.
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error) {
+func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	var err error
 
 	h += "\n\n"
@@ -504,7 +518,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 	//counter := 0
 	// eat leading spaces and carriage returns (necessary??)
 	i := 0
-	for h[i] == '\n' || h[i] == '\t' || h[i] == ' ' {
+	for i < len(h) && (h[i] == '\n' || h[i] == '\t' || h[i] == ' ') {
 		i++
 	}
 	for ; i < len(h); i++ {
@@ -523,8 +537,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 		return nil, err
 	}
 
-	shp, err := hp.Parse()
-	return shp.(*header.SIPHeader), err
+	return hp.Parse()
 }
 
 /**
-- 
2.43.0


From bad0b9e353b39043cbe24088a3f086a4c43fa5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 007/107] fix: report an error for a URI without a scheme
 instead of returning a nil URI

---
 sip/parser/URLParser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 6182a82..a4a6e77 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -259,7 +259,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 		}
 	} else {
 		urlString := this.UricString()
-		retval = address.NewURIImpl(urlString)
+		uri := address.NewURIImpl(urlString)
+		if uri == nil {
+			return nil, this.CreateParseException("Expecting a URI scheme")
+		}
+		retval = uri
 	}
 
 	return retval, nil
-- 
2.43.0


From 298425ce3c1e5b8bb0bdf9d33b252e48a5fec232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:01 +0000
Subject: [PATCH 008/107] fix: do not keep the end of line in the last product
 of a Server header

---
 sip/parser/ServerParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index f97805d..5ad4b8b 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -60,7 +60,7 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 			tok, ParseException = lexer.GetString('/')
 			if ParseException != nil {
 				tok = lexer.GetRest()
-				server.AddProductToken(tok)
+				server.AddProductToken(strings.TrimSpace(tok))
 				break
 			} else {
 				if strings.HasSuffix(tok, "\n") {
-- 
2.43.0


From 333bbb1808495ebc33475f449cb2ebe4a1589f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 009/107] fix: report the error of SetParameter from the
 parameter setters of the authentication headers

---
 sip/header/AuthenticationImpl.go     | 27 +++++++++------------------
 sip/header/AuthenticationInfoImpl.go | 15 +++++----------
 2 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 49a5481..c58f814 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -134,8 +134,7 @@ func (this *Authentication) SetRealm(realm string) (ParseException error) {
 	if realm == "" {
 		return errors.New("NullPointerException: The realm parameter is null")
 	}
-	this.SetParameter(ParameterNames_REALM, realm)
-	return nil
+	return this.SetParameter(ParameterNames_REALM, realm)
 }
 
 /**
@@ -163,8 +162,7 @@ func (this *Authentication) SetNonce(nonce string) (ParseException error) {
 	if nonce == "" {
 		return errors.New("NullPointerException: The nonce parameter is null")
 	}
-	this.SetParameter(ParameterNames_NONCE, nonce)
-	return nil
+	return this.SetParameter(ParameterNames_NONCE, nonce)
 }
 
 /**
@@ -222,8 +220,7 @@ func (this *Authentication) SetAlgorithm(algorithm string) (ParseException error
 	if algorithm == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_ALGORITHM, algorithm)
-	return nil
+	return this.SetParameter(ParameterNames_ALGORITHM, algorithm)
 }
 
 /**
@@ -250,8 +247,7 @@ func (this *Authentication) SetQop(qop string) (ParseException error) {
 	if qop == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /**
@@ -278,8 +274,7 @@ func (this *Authentication) SetOpaque(opaque string) (ParseException error) {
 	if opaque == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_OPAQUE, opaque)
-	return nil
+	return this.SetParameter(ParameterNames_OPAQUE, opaque)
 }
 
 /**
@@ -306,8 +301,7 @@ func (this *Authentication) SetDomain(domain string) (ParseException error) {
 	if domain == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_DOMAIN, domain)
-	return nil
+	return this.SetParameter(ParameterNames_DOMAIN, domain)
 }
 
 /**
@@ -358,8 +352,7 @@ func (this *Authentication) IsStale() bool {
  * @param cnonce -- a nonce string.
  */
 func (this *Authentication) SetCNonce(cnonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cnonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cnonce)
 }
 
 /** Get the CNonce.
@@ -390,8 +383,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /**
@@ -412,8 +404,7 @@ func (this *Authentication) SetResponse(response string) (ParseException error)
 		return errors.New("NullPointerException: Null parameter")
 	}
 
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 /**
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 4daa226..06d1be2 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -119,8 +119,7 @@ func (this *AuthenticationInfo) GetResponse() string {
  *
  */
 func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cNonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cNonce)
 }
 
 /** Sets the NextNonce of the AuthenticationInfoHeader to the <var>nextNonce</var>
@@ -132,8 +131,7 @@ func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error)
  *
  */
 func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
-	return nil
+	return this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
 }
 
 /** Sets the Nonce Count of the AuthenticationInfoHeader to the <var>nonceCount</var>
@@ -152,8 +150,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /** Sets the Qop value of the AuthenticationInfoHeader to the new
@@ -165,8 +162,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
  *
  */
 func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /** Sets the Response of the
@@ -180,8 +176,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From c0bf7fefcf28ec03a6448b7d7192c1b2e6cf8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 010/107] fix: store the response of Authentication-Info under
 the name it is read from (rspauth)

---
 sip/header/AuthenticationInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 06d1be2..64e8de8 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -176,7 +176,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	return this.SetParameter(ParameterNames_RESPONSE, response)
+	return this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From c45028a2db34ffab7df938575aed322004cc912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:19 +0000
Subject: [PATCH 011/107] fix: read the nonce count as the hexadecimal number
 it is and reject one that does not fit eight digits

---
 sip/header/AuthenticationImpl.go     | 4 ++--
 sip/header/AuthenticationInfoImpl.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index c58f814..4c9edc8 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -366,7 +366,7 @@ func (this *Authentication) GetCNonce() string {
 func (this *Authentication) GetNonceCount() int {
 	//return this.GetParameterAsHexInt(ParameterNames_NC);
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, _ := strconv.ParseInt(s, 16, 64)
 	return int(nCount)
 }
 
@@ -375,7 +375,7 @@ func (this *Authentication) GetNonceCount() int {
  */
 
 func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || int64(nonceCount) > 0xffffffff {
 		return errors.New("ParseException: bad value")
 	}
 
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 64e8de8..1092d36 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -87,7 +87,7 @@ func (this *AuthenticationInfo) GetNextNonce() string {
  */
 func (this *AuthenticationInfo) GetNonceCount() int {
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, _ := strconv.ParseInt(s, 16, 64)
 	return int(nCount)
 }
 
@@ -143,7 +143,7 @@ func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException e
  *
  */
 func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || int64(nonceCount) > 0xffffffff {
 		return errors.New("ParseException: bad value")
 	}
 	nc := strconv.FormatUint(uint64(nonceCount), 16)
-- 
2.43.0


From 8de35e3764e95348602901e26d9147559759bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 012/107] fix: replace the expires parameter of a Contact
 instead of appending another

---
 sip/header/ContactImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 0303f49..3c23b0d 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -113,7 +113,7 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
-	this.parameters.AddNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
+	this.parameters.SetNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
 	return nil
 }
 
-- 
2.43.0


From ef6120b3ffef83dd78527c87f326b1b2289eda33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:36 +0000
Subject: [PATCH 013/107] fix: store and read the ttl URI parameter as the
 string a NameValue holds

---
 sip/address/SipURIImpl.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 075e3a3..8813d44 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -734,9 +734,10 @@ func (this *SipURIImpl) GetParameterNames() *list.List {
  * @return the value of the <code>ttl</code> parameter
  */
 func (this *SipURIImpl) GetTTLParam() int {
-	ttl := this.uriParms.GetValue("ttl")
-	if ttl != nil {
-		return ttl.(int)
+	if ttl, ok := this.uriParms.GetValue("ttl").(string); ok {
+		if n, err := strconv.Atoi(ttl); err == nil {
+			return n
+		}
 	}
 	return -1
 }
@@ -903,7 +904,7 @@ func (this *SipURIImpl) SetTTLParam(ttl int) error {
 	}
 	if this.uriParms != nil {
 		this.uriParms.Delete("ttl")
-		nv := core.NewNameValue("ttl", ttl)
+		nv := core.NewNameValue("ttl", strconv.Itoa(ttl))
 		this.uriParms.AddNameValue(nv)
 	}
 
-- 
2.43.0


From b0be1a2184e1a5505460b4cfaab9f53606291532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:40 +0000
Subject: [PATCH 014/107] fix: store the maddr URI parameter as the string a
 NameValue holds

---
 sip/address/SipURIImpl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 8813d44..d1349ac 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -508,9 +508,9 @@ func (this *SipURIImpl) SetMAddr(mAddr string) {
 	host := &core.Host{}
 	host.SetAddress(mAddr)
 	if nameValue != nil {
-		nameValue.SetValue(host)
+		nameValue.SetValue(host.GetAddress())
 	} else {
-		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host)
+		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host.GetAddress())
 		this.uriParms.AddNameValue(nameValue)
 	}
 }
-- 
2.43.0


From 0fe0f5c8672011f10e2c9e0f36c29846f1299965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 015/107] fix: replace the method URI parameter instead of
 appending another

---
 sip/address/SipURIImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index d1349ac..7258b56 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -530,7 +530,7 @@ func (this *SipURIImpl) SetUserParam(usertype string) {
  * @param method method parameter
  */
 func (this *SipURIImpl) SetMethod(method string) {
-	this.uriParms.AddNameAndValue(core.SIPTransportNames_METHOD, method)
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_METHOD, method)
 }
 
 /**
-- 
2.43.0


From 4d1c43671b4adf56dae51118c11c2935c8ccec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:38 +0000
Subject: [PATCH 016/107] fix: drop the previous body when
 SIPMessage.SetContent replaces it

---
 sip/message/SIPMessage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 2a05d3a..8758b3d 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1207,9 +1207,11 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	length := -1
 	if s, ok := content.(string); ok {
 		this.messageContent = s
+		this.messageContentBytes = nil
 		length = len(s)
 	} else if b, ok := content.([]byte); ok {
 		this.messageContentBytes = b
+		this.messageContent = ""
 		length = len(b)
 	} else {
 		panic("Don't support GenericObject")
-- 
2.43.0


From 667edb3d1e1974102918f9b3f5d9a61f8f137d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:41 +0000
Subject: [PATCH 017/107] fix: write the CSeq number and the default port into
 a transaction id in decimal

---
 sip/message/SIPMessage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 8758b3d..1363b0b 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"container/list"
 	"errors"
+	"strconv"
 	"strings"
 
 	"github.com/use-go/gosips/core"
@@ -804,13 +805,13 @@ func (this *SIPMessage) GetTransactionId() string {
 		retval.WriteString(hpTo + ":")
 		cid := this.callIdHeader.GetCallId()
 		retval.WriteString(cid + ":")
-		retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
+		retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
 		retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		if topVia != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
 				retval.WriteString(":")
-				retval.WriteRune(5060)
+				retval.WriteString(strconv.Itoa(header.SIPConstants_DEFAULT_PORT))
 			}
 		}
 		hc := ToHexString([]byte(strings.ToLower(retval.String())))
-- 
2.43.0


From ac4692cda658d2073d5054f0fe67ed0dd8555bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 018/107] fix: forget a header list whose last element
 RemoveHeader2 removed

---
 sip/message/SIPMessage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 1363b0b..f788ca8 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -685,6 +685,7 @@ func (this *SIPMessage) RemoveHeader2(headerName string, top bool) {
 		}
 		// Clean up empty list
 		if hdrList.Len() == 0 {
+			delete(this.nameTable, strings.ToLower(headerName))
 			for li := this.headers.Front(); li != nil; li = li.Next() {
 				sipHeader := li.Value.(header.Header)
 				if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
-- 
2.43.0


From 7b88ff04e8adeb7d418320910b05019afba710d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 019/107] fix: replace a telephone number parameter that is set
 again

---
 sip/address/TelphoneNumber.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 0f5bcca..3ac553f 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -124,7 +124,7 @@ func (this *TelephoneNumber) SetGlobal(g bool) {
  */
 func (this *TelephoneNumber) SetPostDial(p string) {
 	nv := core.NewNameValue(core.SIPTransportNames_POSTDIAL, p)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /** set the specified parameter
@@ -133,7 +133,7 @@ func (this *TelephoneNumber) SetPostDial(p string) {
  */
 func (this *TelephoneNumber) SetParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /**
@@ -214,5 +214,5 @@ func (this *TelephoneNumber) RemoveParameter(parameter string) {
 
 func (this *TelephoneNumber) SetParameter(name, value string) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
-- 
2.43.0


From 9005367dece983b7693d0cc099b8ebbcc620ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:02 +0000
Subject: [PATCH 020/107] fix: do not panic when a telephone number has no
 post-dial or subaddress

---
 sip/address/TelphoneNumber.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 3ac553f..d6e2dec 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -49,7 +49,7 @@ func (this *TelephoneNumber) GetPhoneNumber() string {
  * @return String
  */
 func (this *TelephoneNumber) GetPostDial() string {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL).(string)
+	return this.GetParameter(core.SIPTransportNames_POSTDIAL)
 }
 
 /**
@@ -57,7 +57,7 @@ func (this *TelephoneNumber) GetPostDial() string {
  * @return String
  */
 func (this *TelephoneNumber) GetIsdnSubaddress() string {
-	return this.parms.GetValue(core.SIPTransportNames_ISUB).(string)
+	return this.GetParameter(core.SIPTransportNames_ISUB)
 }
 
 /** returns true if th PostDial field exists
-- 
2.43.0


From 06b8230a803f0dd62a517157b335ee6796b4cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:05 +0000
Subject: [PATCH 021/107] fix: give a new tel URL an empty telephone number to
 fill in

---
 sip/address/TelURLImpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/address/TelURLImpl.go b/sip/address/TelURLImpl.go
index 0e88a76..cff99d7 100644
--- a/sip/address/TelURLImpl.go
+++ b/sip/address/TelURLImpl.go
@@ -19,6 +19,7 @@ func NewTelURLImpl() *TelURLImpl {
 	this := &TelURLImpl{}
 
 	this.scheme = "tel"
+	this.telephoneNumber = NewTelephoneNumber()
 
 	return this
 }
-- 
2.43.0


From 6d659c34d13095932a2d677dc1ffa43e52222cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:57 +0000
Subject: [PATCH 022/107] fix: replace the cause and the text of a Reason
 header that are set again

---
 sip/header/ReasonImpl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 1b74e2e..093b66a 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -36,7 +36,7 @@ func (this *Reason) GetCause() int {
  *@param cause - cause to Set.
  */
 func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
-	this.parameters.AddNameAndValue("cause", strconv.Itoa(cause))
+	this.parameters.SetNameAndValue("cause", strconv.Itoa(cause))
 	return nil
 }
 
@@ -63,7 +63,7 @@ func (this *Reason) GetProtocol() string {
  *@param text -- string text to Set.
  */
 func (this *Reason) SetText(text string) (ParseException error) {
-	this.parameters.AddNameAndValue("text", text)
+	this.parameters.SetNameAndValue("text", text)
 	return nil
 }
 
-- 
2.43.0


From d6e168f64d11c3f09db5b0b29596551c3ce9de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 023/107] fix: replace a URI parameter that SetUriParm sets
 again

---
 sip/address/SipURIImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 7258b56..45ec718 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -489,7 +489,7 @@ func (this *SipURIImpl) SetUriParms(parms *core.NameValueList) {
 */
 func (this *SipURIImpl) SetUriParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.uriParms.AddNameValue(nv)
+	this.uriParms.SetNameValue(nv)
 }
 
 /** Set the qheaders member
-- 
2.43.0


From e27065ce4a27fa261ffbf7f88ec2ce6d7e1f80ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 024/107] fix: do not add the lr parameter once more each time
 it is set

---
 sip/address/SipURIImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 45ec718..086d156 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -817,7 +817,7 @@ func (this *SipURIImpl) SetHostString(host string) {
  * pre-existing route Set.
  */
 func (this *SipURIImpl) SetLrParam() {
-	if this.uriParms.GetValue("lr") != nil {
+	if this.uriParms.HasNameValue("lr") {
 		return
 	}
 	nv := core.NewNameValue("lr", nil)
-- 
2.43.0


From 117472ae0ed0d6f50f722dc1a8f993ccfaf4aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 025/107] fix: keep the parameters when a NameValueList is
 cloned

---
 core/NameValueList.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 0115bb7..117add5 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -255,11 +255,10 @@ func (nameValueList *NameValueList) Clone() interface{} {
 	retval.stringRep = nameValueList.stringRep
 	retval.separator = nameValueList.separator
 
-	li := list.New()
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
 		nnv := nv.Clone().(*NameValue)
-		li.PushBack(nnv)
+		retval.PushBack(nnv)
 	}
 
 	return retval
-- 
2.43.0


From 9798a8c5d666492e15d0dc596232056aeaad1d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:11 +0000
Subject: [PATCH 026/107] fix: concatenate the entries of a NameValueList, not
 its list elements

---
 core/NameValueList.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 117add5..3562718 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -49,14 +49,13 @@ func (nameValueList *NameValueList) Concatenate(nvl *NameValueList, topFlag bool
 	if !topFlag {
 		//nameValueList.PushBackList(nvl)
 		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.PushBack(e)
+		    nameValueList.PushBack(e.Value)
 		}
 	} else {
 		//nameValueList.PushFrontList(nvl)
 		// add given items to the end of the list.
-		first := nameValueList.Front()
-		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.InsertBefore(e, first)
+		for e := nvl.Back(); e != nil; e = e.Prev() {
+		    nameValueList.PushFront(e.Value)
 		}
 	}
 }
-- 
2.43.0


From a470964595bf69841eca7aecf4a4ff9c2dbc7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 027/107] fix: replace a challenge parameter that is set again

---
 sip/header/Challenge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 806c057..9d76bf5 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -158,7 +158,7 @@ func (this *Challenge) RemoveParameters() {
  * @param nv NameValue to Set
  */
 func (this *Challenge) SetParameter(nv *core.NameValue) {
-	this.authParams.AddNameValue(nv)
+	this.authParams.SetNameValue(nv)
 }
 
 /**
-- 
2.43.0


From 7a95af67016b6e77eadeb9468e4468a1eb40601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:24 +0000
Subject: [PATCH 028/107] fix: do not panic when an absent parameter of a SIP
 URI is read

---
 sip/address/SipURIImpl.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 086d156..5a5de04 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -219,7 +219,7 @@ func (this *SipURIImpl) GetParm(parmname string) interface{} {
  * @return Method parameter.
  */
 func (this *SipURIImpl) GetMethod() string {
-	return this.GetParm(core.SIPTransportNames_METHOD).(string)
+	return this.GetParameter(core.SIPTransportNames_METHOD)
 }
 
 /**
@@ -251,7 +251,7 @@ func (this *SipURIImpl) GetQheaders() *core.NameValueList {
  * @return User parameter (user= phone or user=ip).
  */
 func (this *SipURIImpl) GetUserType() string {
-	return this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	return this.GetParameter(core.SIPTransportNames_USER)
 }
 
 /**
@@ -348,7 +348,7 @@ func (this *SipURIImpl) GetHost() string {
  * @return true if the user is a telephone subscriber.
  */
 func (this *SipURIImpl) IsUserTelephoneSubscriber() bool {
-	usrtype := this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	usrtype := this.GetParameter(core.SIPTransportNames_USER)
 	if usrtype == "" {
 		return false
 	}
@@ -677,11 +677,7 @@ func (this *SipURIImpl) GetLrParam() string {
  * @return the value of the <code>maddr</code> parameter
  */
 func (this *SipURIImpl) GetMAddrParam() string {
-	maddr := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	if maddr == nil {
-		return ""
-	}
-	return maddr.GetValue().(string)
+	return this.GetParameter(core.SIPTransportNames_MADDR)
 }
 
 /** Returns the value of the <code>method</code> parameter, or null if this
@@ -749,7 +745,7 @@ func (this *SipURIImpl) GetTTLParam() int {
  */
 func (this *SipURIImpl) GetTransportParam() string {
 	if this.uriParms != nil {
-		return this.uriParms.GetValue(core.SIPTransportNames_TRANSPORT).(string)
+		return this.GetParameter(core.SIPTransportNames_TRANSPORT)
 	}
 	return ""
 }
-- 
2.43.0


From 755d4b90f7fa196f0bbf1b4427a59813d4b4cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:28 +0000
Subject: [PATCH 029/107] fix: do not panic when an absent parameter of a
 challenge is read

---
 sip/header/Challenge.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 9d76bf5..99753ce 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -50,70 +50,70 @@ func (this *Challenge) GetAuthParams() *core.NameValueList {
  * @return String
  */
 func (this *Challenge) GetDomain() string {
-	return this.authParams.GetValue(ParameterNames_DOMAIN).(string)
+	return this.authParams.GetParameter(ParameterNames_DOMAIN)
 }
 
 /** Get the URI field
  * @return String
  */
 func (this *Challenge) GetURI() string {
-	return this.authParams.GetValue(ParameterNames_URI).(string)
+	return this.authParams.GetParameter(ParameterNames_URI)
 }
 
 /** Get the Opaque field
  * @return String
  */
 func (this *Challenge) GetOpaque() string {
-	return this.authParams.GetValue(ParameterNames_OPAQUE).(string)
+	return this.authParams.GetParameter(ParameterNames_OPAQUE)
 }
 
 /** Get QOP value
  * @return String
  */
 func (this *Challenge) GetQOP() string {
-	return this.authParams.GetValue(ParameterNames_QOP).(string)
+	return this.authParams.GetParameter(ParameterNames_QOP)
 }
 
 /** Get the Algorithm value.
  * @return String
  */
 func (this *Challenge) GetAlgorithm() string {
-	return this.authParams.GetValue(ParameterNames_ALGORITHM).(string)
+	return this.authParams.GetParameter(ParameterNames_ALGORITHM)
 }
 
 /** Get the State value.
  * @return String
  */
 func (this *Challenge) GetStale() string {
-	return this.authParams.GetValue(ParameterNames_STALE).(string)
+	return this.authParams.GetParameter(ParameterNames_STALE)
 }
 
 /** Get the Signature value.
  * @return String
  */
 func (this *Challenge) GetSignature() string {
-	return this.authParams.GetValue(ParameterNames_SIGNATURE).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNATURE)
 }
 
 /** Get the signedBy value.
  * @return String
  */
 func (this *Challenge) GetSignedBy() string {
-	return this.authParams.GetValue(ParameterNames_SIGNED_BY).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNED_BY)
 }
 
 /** Get the Response value.
  * @return String
  */
 func (this *Challenge) GetResponse() string {
-	return this.authParams.GetValue(ParameterNames_RESPONSE).(string)
+	return this.authParams.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Get the realm value.
  * @return String.
  */
 func (this *Challenge) GetRealm() string {
-	return this.authParams.GetValue(ParameterNames_REALM).(string)
+	return this.authParams.GetParameter(ParameterNames_REALM)
 }
 
 /** Get the specified parameter
@@ -121,7 +121,7 @@ func (this *Challenge) GetRealm() string {
  * @return String to Set
  */
 func (this *Challenge) GetParameter(name string) string {
-	return this.authParams.GetValue(name).(string)
+	return this.authParams.GetParameter(name)
 }
 
 /** boolean function
-- 
2.43.0


From 534ef9e172de6f2fc22aec068df1a1dba3393f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:31 +0000
Subject: [PATCH 030/107] fix: keep separating the parameters of a challenge by
 commas after RemoveParameters

---
 sip/header/Challenge.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 99753ce..a95c84d 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -152,6 +152,7 @@ func (this *Challenge) RemoveParameter(name string) bool {
  */
 func (this *Challenge) RemoveParameters() {
 	this.authParams = core.NewNameValueList("authParams")
+	this.authParams.SetSeparator(core.SIPSeparatorNames_COMMA)
 }
 
 /** Set the specified parameter
-- 
2.43.0


From ebe36eca970ff5179df98f692c5082f9f890ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:35 +0000
Subject: [PATCH 031/107] fix: do not panic when the value of an absent header
 parameter is read

---
 sip/header/ParametersImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index b674104..39002d7 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -114,7 +114,7 @@ func (this *Parameters) GetParameter(name string) string {
  *
  */
 func (this *Parameters) GetParameterValue(name string) string {
-	return this.parameters.GetValue(name).(string)
+	return this.parameters.GetParameter(name)
 }
 
 /**
-- 
2.43.0


From b2a24d2d31446f97222e5c316d9158cdea1b63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:38 +0000
Subject: [PATCH 032/107] fix: read the maddr parameter of a Via as the string
 a NameValue holds

---
 sip/header/ViaImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 881c7d8..335f747 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -111,7 +111,7 @@ func (this *Via) GetComment() string {
  * @return maddr parameter.
  */
 func (this *Via) GetMaddr() *core.Host {
-	return this.parameters.GetValue(ParameterNames_MADDR).(*core.Host)
+	return core.NewHost(this.parameters.GetParameter(ParameterNames_MADDR))
 }
 
 /** port of the Via Header.
-- 
2.43.0


From 0de639005f6767dbbb43dde312590082fff561a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 033/107] fix: do not index an empty IPv6 reference

---
 core/Host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Host.go b/core/Host.go
index c12eb69..852b3df 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -211,7 +211,7 @@ func (host *Host) isIPv6Address(address string) bool {
  * square brackets
  */
 func (host *Host) isIPv6Reference(address string) bool {
-	return address[0] == '[' && address[len(address)-1] == ']'
+	return address != "" && address[0] == '[' && address[len(address)-1] == ']'
 }
 
 func (host *Host) Clone() interface{} {
-- 
2.43.0


From 92d4ac7c34ab099c98f41cad0eaebe9d0d7268b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:46 +0000
Subject: [PATCH 034/107] fix: keep the IPv6 address type of a new host

---
 core/Host.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Host.go b/core/Host.go
index 852b3df..353629a 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -39,8 +39,9 @@ func NewHost(hname string) *Host {
 	host.hostname = hname
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
+	} else {
+		host.addressType = IPV4ADDRESS
 	}
-	host.addressType = IPV4ADDRESS
 
 	return host
 }
-- 
2.43.0


From 1c070976308214d95a5e67c5a67124e91443f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 035/107] fix: do not panic when the parts of a URI without an
 authority or host are read

---
 core/Host.go              |  6 ++++++
 core/HostPort.go          |  8 +++++++-
 sip/address/Authority.go  | 15 ++++++++++-----
 sip/address/SipURIImpl.go |  2 +-
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index 353629a..90fa782 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -62,6 +62,9 @@ func NewHost(hname string) *Host {
  * @return String
  */
 func (host *Host) String() string {
+	if host == nil {
+		return ""
+	}
 	if host.addressType == IPV6ADDRESS && !host.isIPv6Reference(host.hostname) {
 		return "[" + host.hostname + "]"
 	}
@@ -88,6 +91,9 @@ func (host *Host) String() string {
  * @return String
  */
 func (host *Host) GetHostName() string {
+	if host == nil {
+		return ""
+	}
 	return host.hostname
 }
 
diff --git a/core/HostPort.go b/core/HostPort.go
index 248bb63..290cbf4 100644
--- a/core/HostPort.go
+++ b/core/HostPort.go
@@ -38,7 +38,7 @@ func NewHostPort() *HostPort {
  */
 func (hostPort *HostPort) String() string {
 	var retval bytes.Buffer //= new StringBuffer();
-	if hostPort.host != nil {
+	if hostPort != nil && hostPort.host != nil {
 		retval.WriteString(hostPort.host.String())
 		if hostPort.port != -1 {
 			retval.WriteString(SIPSeparatorNames_COLON + strconv.Itoa(hostPort.port))
@@ -68,6 +68,9 @@ func (hostPort *HostPort) String() string {
  * @return host field
  */
 func (hostPort *HostPort) GetHost() *Host {
+	if hostPort == nil {
+		return nil
+	}
 	return hostPort.host
 }
 
@@ -75,6 +78,9 @@ func (hostPort *HostPort) GetHost() *Host {
  * @return int
  */
 func (hostPort *HostPort) GetPort() int {
+	if hostPort == nil {
+		return -1
+	}
 	return hostPort.port
 }
 
diff --git a/sip/address/Authority.go b/sip/address/Authority.go
index ed83b7b..5ca3a01 100644
--- a/sip/address/Authority.go
+++ b/sip/address/Authority.go
@@ -81,6 +81,9 @@ func (this *Authority) GetHostPort() *core.HostPort {
  * @return UserInfo
  */
 func (this *Authority) GetUserInfo() *UserInfo {
+	if this == nil {
+		return nil
+	}
 	return this.userInfo
 }
 
@@ -101,7 +104,7 @@ func (this *Authority) GetPassword() string {
  * @return String user or null if not set.
  */
 func (this *Authority) GetUser() string {
-	if this.userInfo == nil {
+	if this == nil || this.userInfo == nil {
 		return ""
 	} else {
 		return this.userInfo.GetUser()
@@ -113,7 +116,7 @@ func (this *Authority) GetUser() string {
  * @return Host (null if not set)
  */
 func (this *Authority) GetHost() *core.Host {
-	if this.hostPort == nil {
+	if this == nil || this.hostPort == nil {
 		return nil
 	} else {
 		return this.hostPort.GetHost()
@@ -125,7 +128,7 @@ func (this *Authority) GetHost() *core.Host {
  * @return int port (-1) if port is not set.
  */
 func (this *Authority) GetPort() int {
-	if this.hostPort == nil {
+	if this == nil || this.hostPort == nil {
 		return -1
 	} else {
 		return this.hostPort.GetPort()
@@ -135,7 +138,7 @@ func (this *Authority) GetPort() int {
 /** remove the port.
  */
 func (this *Authority) RemovePort() {
-	if this.hostPort != nil {
+	if this != nil && this.hostPort != nil {
 		this.hostPort.RemovePort()
 	}
 }
@@ -204,5 +207,7 @@ func (this *Authority) SetUserInfo(u *UserInfo) {
 *
  */
 func (this *Authority) RemoveUserInfo() {
-	this.userInfo = nil
+	if this != nil {
+		this.userInfo = nil
+	}
 }
diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 5a5de04..d8173de 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -174,7 +174,7 @@ func (this *SipURIImpl) String() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHost() string {
-	user := this.authority.GetUserInfo().GetUser()
+	user := this.authority.GetUser()
 	host := this.authority.GetHost().String()
 	return user + core.SIPSeparatorNames_AT + host
 }
-- 
2.43.0


From 283847a9da44d35fc31f0b6cbdaf8906863b8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 036/107] fix: return the user@host:port that GetUserAtHostPort
 computes

---
 sip/address/AddressImpl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 83ae069..6395757 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -92,7 +92,10 @@ func (this *AddressImpl) GetPort() (int, error) {
  */
 func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		sipuri.GetUserAtHostPort()
+		return sipuri.GetUserAtHostPort()
+	}
+	if this.address == nil {
+		return ""
 	}
 	return this.address.String()
 }
-- 
2.43.0


From e4c33ecbc5583e2b1bd6e86f9cf2540c92a9302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 037/107] fix: do not panic when a header without its URI, date
 or call identifier is encoded

---
 sip/header/AlertInfoImpl.go | 4 +++-
 sip/header/CallInfoImpl.go  | 4 +++-
 sip/header/DateImpl.go      | 3 +++
 sip/header/ErrorInfoImpl.go | 4 +++-
 sip/header/InReplyToImpl.go | 2 +-
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index dbf11c9..2fb416d 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -37,7 +37,9 @@ func (this *AlertInfo) String() string {
 func (this *AlertInfo) EncodeBody() string {
 	var encoding bytes.Buffer
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
-	encoding.WriteString(this.uri.String())
+	if this.uri != nil {
+		encoding.WriteString(this.uri.String())
+	}
 	encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
 
 	if this.parameters != nil && this.parameters.Len() > 0 {
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 15f65fc..bd9d517 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -39,7 +39,9 @@ func (this *CallInfo) EncodeBody() string {
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
 
-	encoding.WriteString(this.info.String())
+	if this.info != nil {
+		encoding.WriteString(this.info.String())
+	}
 
 	encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
 
diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 5c55b2d..84ab4d8 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -33,6 +33,9 @@ func (this *Date) String() string {
  * @return String
  */
 func (this *Date) EncodeBody() string {
+	if this.date == nil {
+		return ""
+	}
 	return this.date.Format(time.RFC1123)
 }
 
diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index d966bad..260869b 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -47,7 +47,9 @@ func (this *ErrorInfo) EncodeBody() string {
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
 
-	encoding.WriteString(this.errorInfo.String())
+	if this.errorInfo != nil {
+		encoding.WriteString(this.errorInfo.String())
+	}
 
 	encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
 
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 860460f..c3be885 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -66,5 +66,5 @@ func (this *InReplyTo) String() string {
  * @return String
  */
 func (this *InReplyTo) EncodeBody() string {
-	return this.callId.String()
+	return this.GetCallId()
 }
-- 
2.43.0


From 739be68aab3c5fc6fcd8cbe3f1f9e8b87c9b1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 038/107] fix: do not panic when a Content-Type without a media
 range is read or encoded

---
 sip/header/ContentTypeImpl.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sip/header/ContentTypeImpl.go b/sip/header/ContentTypeImpl.go
index 16d847f..9a44824 100644
--- a/sip/header/ContentTypeImpl.go
+++ b/sip/header/ContentTypeImpl.go
@@ -61,7 +61,7 @@ func NewContentTypeFromString(contentType, contentSubtype string) *ContentType {
  * @return int.
  */
 func (this *ContentType) CompareMediaRange(media string) bool {
-	return strings.ToLower(this.mediaRange.mtype+"/"+this.mediaRange.subtype) == strings.ToLower(media)
+	return strings.ToLower(this.GetContentType()+"/"+this.GetContentSubType()) == strings.ToLower(media)
 }
 
 func (this *ContentType) String() string {
@@ -74,6 +74,9 @@ func (this *ContentType) String() string {
  * @return String.
  */
 func (this *ContentType) EncodeBody() string {
+	if this.mediaRange == nil {
+		return ""
+	}
 	if this.HasParameters() {
 		return this.mediaRange.String() + core.SIPSeparatorNames_SEMICOLON + this.parameters.String()
 	} else {
@@ -92,14 +95,14 @@ func (this *ContentType) GetMediaRange() *MediaRange {
  * @return String.
  */
 func (this *ContentType) GetMediaType() string {
-	return this.mediaRange.mtype
+	return this.GetContentType()
 }
 
 /** Get the MediaSubType field.
  * @return String.
  */
 func (this *ContentType) GetMediaSubType() string {
-	return this.mediaRange.subtype
+	return this.GetContentSubType()
 }
 
 /** Get the content subtype.
-- 
2.43.0


From e2731d0c9dc6662b6ca71e3620f7899cd7af5319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 039/107] fix: do not panic when an address header without an
 address is read or encoded

---
 sip/header/ContactImpl.go     | 3 +++
 sip/header/FromImpl.go        | 9 +++++++++
 sip/header/RecordRouteImpl.go | 3 +++
 sip/header/ReferToImpl.go     | 3 +++
 sip/header/ReplyToImpl.go     | 9 +++++++++
 sip/header/RouteImpl.go       | 3 +++
 6 files changed, 30 insertions(+)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 3c23b0d..c31902e 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -53,6 +53,9 @@ func (this *Contact) EncodeBody() string {
 		encoding.WriteString("*")
 		return encoding.String()
 	}
+	if this.addr == nil {
+		return ""
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	// Bug report by Joao Paulo
 	if addr.GetAddressType() == address.NAME_ADDR {
diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 4f2b0d9..df86256 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -73,6 +73,9 @@ func (this *From) String() string {
  * @return String
  */
 func (this *From) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var retval bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
@@ -108,6 +111,9 @@ func (this *From) GetHostPort() (*core.HostPort, error) {
  * @return Display name
  */
 func (this *From) GetDisplayName() string {
+	if this.addr == nil {
+		return ""
+	}
 	return this.addr.GetDisplayName()
 }
 
@@ -164,6 +170,9 @@ func (this *From) SetTag(t string) (ParseException error) {
 /** Get the user@host port string.
  */
 func (this *From) GetUserAtHostPort() string {
+	if this.addr == nil {
+		return ""
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	return addr.GetUserAtHostPort()
 }
diff --git a/sip/header/RecordRouteImpl.go b/sip/header/RecordRouteImpl.go
index 46ad7f0..f8839ba 100644
--- a/sip/header/RecordRouteImpl.go
+++ b/sip/header/RecordRouteImpl.go
@@ -40,6 +40,9 @@ func (this *RecordRoute) String() string {
  *@return String containing the canonicaly encoded header.
  */
 func (this *RecordRoute) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/ReferToImpl.go b/sip/header/ReferToImpl.go
index 96eb280..7c30966 100644
--- a/sip/header/ReferToImpl.go
+++ b/sip/header/ReferToImpl.go
@@ -32,6 +32,9 @@ func (this *ReferTo) String() string {
  * @return String
  */
 func (this *ReferTo) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/ReplyToImpl.go b/sip/header/ReplyToImpl.go
index 3ccd2ce..8ee2b3b 100644
--- a/sip/header/ReplyToImpl.go
+++ b/sip/header/ReplyToImpl.go
@@ -43,6 +43,9 @@ func (this *ReplyTo) String() string {
  * @return String
  */
 func (this *ReplyTo) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
@@ -65,6 +68,9 @@ func (this *ReplyTo) EncodeBody() string {
  * @return HostPort
  */
 func (this *ReplyTo) GetHostPort() *core.HostPort {
+	if this.addr == nil {
+		return nil
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	hp, _ := addr.GetHostPort()
 	return hp
@@ -75,5 +81,8 @@ func (this *ReplyTo) GetHostPort() *core.HostPort {
  * @return String
  */
 func (this *ReplyTo) GetDisplayName() string {
+	if this.addr == nil {
+		return ""
+	}
 	return this.addr.GetDisplayName()
 }
diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index 343413d..d4137f4 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -73,6 +73,9 @@ func (this *Route) String() string {
  *@return a canonical encoding of the header.
  */
 func (this *Route) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	encoding.WriteString(this.addr.String())
 	if this.parameters != nil && this.parameters.Len() > 0 {
-- 
2.43.0


From fdde8d0baeadb1f260d47cfb58510eec9b40b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 040/107] fix: do not take part of the name of an extension
 header for its value

---
 sip/header/ExtensionImpl.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/sip/header/ExtensionImpl.go b/sip/header/ExtensionImpl.go
index b4284a1..06e9fc1 100644
--- a/sip/header/ExtensionImpl.go
+++ b/sip/header/ExtensionImpl.go
@@ -2,7 +2,6 @@ package header
 
 import (
 	"github.com/use-go/gosips/core"
-	"strings"
 )
 
 /**
@@ -49,19 +48,7 @@ func (this *Extension) GetValue() string {
 *@return the value of the extension header.
  */
 func (this *Extension) GetHeaderValue() string {
-	if this.value != "" {
-		return this.value
-	} else {
-		var encodedHdr string
-		encodedHdr = this.String()
-		buffer := []byte(encodedHdr)
-		for len(buffer) > 0 && buffer[0] != ':' {
-			buffer = buffer[1:]
-		}
-		buffer = buffer[1:]
-		this.value = strings.TrimSpace(string(buffer))
-		return this.value
-	}
+	return this.value
 }
 
 /** Return the canonical encoding of this header.
-- 
2.43.0


From 70b47798ee5eadc66c605e1098a41906453abaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:26 +0000
Subject: [PATCH 041/107] fix: return nil, not an interface holding a nil
 pointer, for a header the message does not have

---
 sip/message/SIPMessage.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index f788ca8..f7ae05a 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -864,6 +864,9 @@ func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
  *@return -- the from header.
  */
 func (this *SIPMessage) GetFrom() header.FromHeader {
+	if this.fromHeader == nil {
+		return nil
+	}
 	return this.fromHeader
 }
 
@@ -935,6 +938,9 @@ func (this *SIPMessage) GetTopmostVia() *header.Via {
  * @return CSeq header
  */
 func (this *SIPMessage) GetCSeq() header.CSeqHeader {
+	if this.cSeqHeader == nil {
+		return nil
+	}
 	return this.cSeqHeader
 }
 
@@ -958,6 +964,9 @@ func (this *SIPMessage) GetAuthorization() *header.Authorization {
  * @return Max-Forwards header
  */
 func (this *SIPMessage) GetMaxForwards() header.MaxForwardsHeader {
+	if this.maxForwardsHeader == nil {
+		return nil
+	}
 	return this.maxForwardsHeader
 }
 
@@ -1021,6 +1030,9 @@ func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
  * @return Call-ID header .
  */
 func (this *SIPMessage) GetCallId() header.CallIdHeader {
+	if this.callIdHeader == nil {
+		return nil
+	}
 	return this.callIdHeader
 }
 
@@ -1070,6 +1082,9 @@ func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
  * @return To header
  */
 func (this *SIPMessage) GetTo() header.ToHeader {
+	if this.toHeader == nil {
+		return nil
+	}
 	return this.toHeader
 }
 
@@ -1087,6 +1102,9 @@ func (this *SIPMessage) SetFrom(from header.FromHeader) {
  * @return content-length header.
  */
 func (this *SIPMessage) GetContentLength() header.ContentLengthHeader {
+	if this.contentLengthHeader == nil {
+		return nil
+	}
 	return this.contentLengthHeader
 }
 
-- 
2.43.0


From 96074b23c91b99d54f4c026a7026e996095f3c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 042/107] fix: do not panic when a header is read that the
 message does not have

---
 sip/message/SIPMessage.go | 48 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index f7ae05a..b45cfb6 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -857,7 +857,8 @@ func (this *SIPMessage) GetHeader(headerName string) header.Header {
  *@return contentType header
  */
 func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	return h
 }
 
 /** Get the from header.
@@ -875,7 +876,8 @@ func (this *SIPMessage) GetFrom() header.FromHeader {
  * @return List containing ErrorInfo headers.
  */
 func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	return h
 }
 
 /**
@@ -883,7 +885,8 @@ func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
  * @return List containing Contact headers.
  */
 func (this *SIPMessage) GetContactHeaders() *header.ContactList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	return h
 }
 
 /**
@@ -891,7 +894,8 @@ func (this *SIPMessage) GetContactHeaders() *header.ContactList {
  * @return List containing Via headers.
  */
 func (this *SIPMessage) GetViaHeaders() *header.ViaList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	return h
 }
 
 /** Get an iterator to the list of vial headers.
@@ -956,7 +960,8 @@ func (this *SIPMessage) GetCSeqNumber() int {
  * @return Authorization header.
  */
 func (this *SIPMessage) GetAuthorization() *header.Authorization {
-	return this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	return h
 }
 
 /**
@@ -982,7 +987,8 @@ func (this *SIPMessage) SetMaxForwards(maxForwards header.MaxForwardsHeader) {
  * @return Min-Expires header
  */
 func (this *SIPMessage) GetMinExpires() *header.MinExpires {
-	return this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	h, _ := this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	return h
 }
 
 /** Set the min expires header.
@@ -998,7 +1004,8 @@ func (this *SIPMessage) SetMinExpiresHeader(minExpires header.MinExpiresHeader)
  * @return Orgnaization header.
  */
 func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
-	return this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	return h
 }
 
 /**
@@ -1006,7 +1013,8 @@ func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
  * @return Priority header
  */
 func (this *SIPMessage) GetPriorityHeader() *header.Priority {
-	return this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	return h
 }
 
 /**
@@ -1014,7 +1022,8 @@ func (this *SIPMessage) GetPriorityHeader() *header.Priority {
  * @return List containing Proxy-Authorization headers.
  */
 func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization {
-	return this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	return h
 }
 
 /**
@@ -1022,7 +1031,8 @@ func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization
  * @return List containing Route headers
  */
 func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	return h
 }
 
 /** Get the CallID header (nil if one does not exist)
@@ -1074,7 +1084,8 @@ func (this *SIPMessage) GetCallIdentifier() string {
  * @return Record-Route header
  */
 func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	return h
 }
 
 /**
@@ -1352,7 +1363,8 @@ func (this *SIPMessage) GetHeaders(headerName string) header.Lister {
 }
 
 func (this *SIPMessage) GetSIPHeaderList(headerName string) header.SIPHeaderLister {
-	return this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	h, _ := this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	return h
 }
 
 func (this *SIPMessage) GetHeaderList(headerName string) header.Lister {
@@ -1561,7 +1573,8 @@ func (this *SIPMessage) GetHeaderNames() *list.List {
  * @return the contentDisposition header
  */
 func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	return h
 }
 
 /** Get the content encoding header.
@@ -1569,7 +1582,8 @@ func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader
  *@return the contentEncoding header.
  */
 func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	return h
 }
 
 /** Get the contentLanguage header.
@@ -1577,7 +1591,8 @@ func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
  *@return the content language header.
  */
 func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	return h
 }
 
 /** Get the exipres header.
@@ -1585,7 +1600,8 @@ func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
  *@return the expires header or nil if one does not exist.
  */
 func (this *SIPMessage) GetExpires() header.ExpiresHeader {
-	return this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	return h
 }
 
 /** Set the expiresHeader
-- 
2.43.0


From 296de1fee1a65cab8893924fd82097e61f9707ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:32 +0000
Subject: [PATCH 043/107] fix: do not panic when the topmost Via, CSeq number
 or call id of a message without them is read

---
 sip/message/SIPMessage.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index b45cfb6..762d989 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -846,6 +846,9 @@ func (this *SIPMessage) getHeaders() header.Lister {
 func (this *SIPMessage) GetHeader(headerName string) header.Header {
 	sipHeader := this.nameTable[strings.ToLower(headerName)]
 	if sl, ok := sipHeader.(header.SIPHeaderLister); ok {
+		if sl.Len() == 0 {
+			return nil
+		}
 		return sl.Front().Value.(header.Header)
 	} else {
 		return sipHeader
@@ -930,11 +933,8 @@ func (this *SIPMessage) SetHeaderFromSIPHeaderList(sipHeaderList header.SIPHeade
  *@return the top most via header if one exists or nil if none exists.
  */
 func (this *SIPMessage) GetTopmostVia() *header.Via {
-	if this.GetViaHeaders() == nil {
-		return nil
-	} else {
-		return this.GetViaHeaders().Front().Value.(*header.Via)
-	}
+	via, _ := this.GetHeader(core.SIPHeaderNames_VIA).(*header.Via)
+	return via
 }
 
 /**
@@ -952,6 +952,9 @@ func (this *SIPMessage) GetCSeq() header.CSeqHeader {
  * @return the sequence number.
  */
 func (this *SIPMessage) GetCSeqNumber() int {
+	if this.cSeqHeader == nil {
+		return -1
+	}
 	return this.cSeqHeader.GetSequenceNumber()
 }
 
@@ -1060,8 +1063,10 @@ func (this *SIPMessage) SetCallId(callId header.CallIdHeader) {
  */
 func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.ParseException {
 	if this.callIdHeader == nil {
-		c, _ := header.NewCallID(callId)
-		this.SetHeader(c)
+		if c, err := header.NewCallID(callId); err == nil {
+			this.SetHeader(c)
+		}
+		return
 	}
 	this.callIdHeader.SetCallId(callId)
 }
@@ -1075,6 +1080,9 @@ func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.
  *
  */
 func (this *SIPMessage) GetCallIdentifier() string {
+	if this.callIdHeader == nil {
+		return ""
+	}
 	return this.callIdHeader.GetCallId()
 }
 
-- 
2.43.0


From f237bbd4a9deb2ac3362a9415e92eb2b015559d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:35 +0000
Subject: [PATCH 044/107] fix: do not panic when a message without a start line
 is read or given a SIP version

---
 sip/message/SIPRequest.go  | 11 ++++++++++-
 sip/message/SIPResponse.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 9cf72f4..b961801 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -173,9 +173,12 @@ func (this *SIPRequest) SetDefaults() {
 // * Patch up the request line as necessary.
 // */
 func (this *SIPRequest) SetRequestLineDefaults() {
+	if this.requestLine == nil {
+		return
+	}
 	method := this.requestLine.GetMethod()
 	if method == "" {
-		cseq := this.GetCSeq().(*header.CSeq)
+		cseq := this.cSeqHeader
 		if cseq != nil {
 			method = cseq.GetMethod()
 			this.requestLine.SetMethod(method)
@@ -879,6 +882,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 	//throws ParseException {
 	//if (sipVersion == nil || !sipVersion.equals("SIP/2.0"))
 	//	throw new ParseException ("sipVersion" , 0);
+	if this.requestLine == nil {
+		this.requestLine = header.NewRequestLine()
+	}
 	this.requestLine.SetSIPVersion(sipVersion)
 }
 
@@ -887,6 +893,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 *@return the SIP version from the request line.
  */
 func (this *SIPRequest) GetSIPVersion() string {
+	if this.requestLine == nil {
+		return ""
+	}
 	return this.requestLine.GetSipVersion()
 }
 
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 42caaaa..9952157 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -220,6 +220,9 @@ func (this *SIPResponse) GetStatusLine() *header.StatusLine {
 //     *@return the status code of the status line.
 //     */
 func (this *SIPResponse) GetStatusCode() int {
+	if this.statusLine == nil {
+		return 0
+	}
 	return this.statusLine.GetStatusCode()
 }
 
@@ -259,7 +262,7 @@ func (this *SIPResponse) IsFinalResponseFromInt(rc int) bool {
 //     *@return true if this is a final response.
 //     */
 func (this *SIPResponse) IsFinalResponse() bool {
-	return this.IsFinalResponseFromInt(this.statusLine.GetStatusCode())
+	return this.IsFinalResponseFromInt(this.GetStatusCode())
 }
 
 //    /**
@@ -622,9 +625,15 @@ func (this *SIPResponse) GetFirstLine() string {
 }
 
 func (this *SIPResponse) SetSIPVersion(sipVersion string) {
+	if this.statusLine == nil {
+		this.statusLine = header.NewStatusLine()
+	}
 	this.statusLine.SetSipVersion(sipVersion)
 }
 
 func (this *SIPResponse) GetSIPVersion() string {
+	if this.statusLine == nil {
+		return ""
+	}
 	return this.statusLine.GetSipVersion()
 }
-- 
2.43.0


From a1ce68a5da302fa1dfb3ff611d35eee9a7e9d16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 045/107] fix: do not write an empty line after the body of a
 response

---
 sip/message/SIPResponse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 9952157..6a61e79 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -326,7 +326,7 @@ func (this *SIPResponse) String() string {
 	} else {
 		retval = this.SIPMessage.String()
 	}
-	return retval + core.SIPSeparatorNames_NEWLINE
+	return retval
 }
 
 // func (this *SIPResponse) String() string {
-- 
2.43.0


From 201b7cd72e61d1c53cd92da7bc6c3710e12ceeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 046/107] fix: do not share the parameters between a From and
 the To generated from it

---
 sip/header/FromImpl.go | 2 +-
 sip/header/ToImpl.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index df86256..5243f65 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -32,7 +32,7 @@ func (this *From) super(name string) {
 func (this *From) CloneTo(to *To) {
 	this.super(core.SIPHeaderNames_FROM)
 	this.addr = to.addr
-	this.parameters = to.parameters
+	this.parameters = to.parameters.Clone().(*core.NameValueList)
 }
 
 /**
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 0882f7c..981eab6 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -32,7 +32,7 @@ func (this *To) super(name string) {
 func (this *To) CloneFrom(from *From) {
 	this.super(core.SIPHeaderNames_TO)
 	this.SetAddress(from.addr)
-	this.SetParameters(from.parameters)
+	this.SetParameters(from.parameters.Clone().(*core.NameValueList))
 }
 
 /**
-- 
2.43.0


From 9034e0a3e039eb20a4b906789e5b3f78c7ed27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:58 +0000
Subject: [PATCH 047/107] fix: keep the order of headers that are put in front
 of a header list

---
 sip/header/SIPHeaderList.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index a9b1376..9f3a54d 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -83,7 +83,7 @@ func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 		}
 	} else {
 		//add given items to the end of the list.
-		for e := shl.Front(); e != nil; e = e.Next() {
+		for e := shl.Back(); e != nil; e = e.Prev() {
 			this.PushFront(e.Value.(Header))
 		}
 	}
-- 
2.43.0


From 875feef9a4a9fa6838ab97bf8a6c0bdc1eee4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:01 +0000
Subject: [PATCH 048/107] fix: do not turn the request itself into a CANCEL
 when one is created from it

---
 sip/message/SIPRequest.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index b961801..3d36824 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -576,7 +576,10 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 	//SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		requestLine := *this.requestLine
+		newRequest.SetRequestLine(&requestLine)
+	}
 	newRequest.SetMethod(CANCEL)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
@@ -601,10 +604,11 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 		} else if cseq, ok := nextHeader.(*header.CSeq); ok { // CSeq method for a cancel request must be cancel.
 			//CSeq cseq = (CSeq) nextHeader.clone();
 			//try{
-			cseq.SetMethod(CANCEL)
+			newCseq := *cseq
+			newCseq.SetMethod(CANCEL)
 			//}
 			//catch(ParseException e){}
-			nextHeader = cseq
+			nextHeader = &newCseq
 		}
 		//try {
 		newRequest.AttachHeader2(nextHeader, false)
-- 
2.43.0


From 761f0bc26a31de66999dd3ff540476636c934ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 049/107] fix: do not turn the request itself into an ACK when
 one is created from it

---
 sip/message/SIPRequest.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 3d36824..d7c971a 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -636,7 +636,10 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 	// SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		requestLine := *this.requestLine
+		newRequest.SetRequestLine(&requestLine)
+	}
 	newRequest.SetMethod(ACK)
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
@@ -653,8 +656,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// Adding content is responsibility of user.
 			//nextHeader = nextHeader.(*header.ContentLength)
 			//try{
-			cl.SetContentLength(0)
-			nextHeader = cl
+			newCl := *cl
+			newCl.SetContentLength(0)
+			nextHeader = &newCl
 			//}
 			//catch(InvalidArgumentException e){}
 		} else if _, ok := nextHeader.(*header.ContentType); ok {
@@ -670,8 +674,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// MUST be equal to "ACK".
 			//nextHeader = nextHeader.(*header.CSeq)
 			//try{
-			cseq.SetMethod(ACK)
-			nextHeader = cseq
+			newCseq := *cseq
+			newCseq.SetMethod(ACK)
+			nextHeader = &newCseq
 			//catch(ParseException e){}
 			// = cseq;
 		} else if _, ok := nextHeader.(*header.To); ok {
-- 
2.43.0


From b451c26c64abb96f4654c4501c30839a4d697a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 050/107] fix: keep the Via of an ACK in a Via list, where its
 getters look for it

---
 sip/message/SIPRequest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index d7c971a..ee10b12 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -692,7 +692,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// field of the original
 			// request.
 
-			nextHeader = vl.Front().Value.(header.Header)
+			newVl := header.NewViaList()
+			newVl.PushBack(vl.Front().Value)
+			nextHeader = newVl
 		} else {
 			//nextHeader = (SIPHeader) nextHeader.clone();
 		}
-- 
2.43.0


From fc09199ccfcdc24c12520eebbbc04590044ae99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 051/107] fix: give the request CreateSIPRequest returns the
 request line it is passed

---
 sip/message/SIPRequest.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index ee10b12..0c8d918 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -750,7 +750,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 // */
 func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switchHeaders bool) *SIPRequest {
 	newRequest := NewSIPRequest()
-	newRequest.requestLine = this.requestLine
+	newRequest.requestLine = requestLine
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
 		// For BYE and cancel Set the CSeq header to the
@@ -759,7 +759,7 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 			// CSeq newCseq = (CSeq) nextHeader.clone();
 			nextHeader = newCseq
 			//try{
-			newCseq.SetMethod(this.requestLine.GetMethod())
+			newCseq.SetMethod(requestLine.GetMethod())
 			//}
 			//catch(ParseException e){}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
-- 
2.43.0


From aec21887bd7e2a658b6740265e8dafb37b2f26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:55 +0000
Subject: [PATCH 052/107] fix: do not change the headers of the request a new
 request is created from

---
 sip/message/SIPRequest.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 0c8d918..7fae262 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -755,17 +755,21 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 		nextHeader := headerIterator.Value.(header.Header)
 		// For BYE and cancel Set the CSeq header to the
 		// appropriate method.
-		if newCseq, ok := nextHeader.(*header.CSeq); ok {
+		if cseq, ok := nextHeader.(*header.CSeq); ok {
 			// CSeq newCseq = (CSeq) nextHeader.clone();
-			nextHeader = newCseq
+			newCseq := *cseq
+			nextHeader = &newCseq
 			//try{
 			newCseq.SetMethod(requestLine.GetMethod())
 			//}
 			//catch(ParseException e){}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
-			via := vl.Front().Value.(*header.Via)
+			via := *vl.Front().Value.(*header.Via)
+			via.SetParameters(via.GetParameters().Clone().(*core.NameValueList))
 			via.RemoveParameter("branch")
-			nextHeader = via
+			newVl := header.NewViaList()
+			newVl.PushBack(&via)
+			nextHeader = newVl
 			// Cancel and ACK preserve the branch ID.
 		} else if to, ok := nextHeader.(*header.To); ok {
 			if switchHeaders {
@@ -775,8 +779,10 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				nextHeader = from
 			} else {
 				//to2 := to.Clone().(*To)
-				to.RemoveTag()
-				nextHeader = to
+				newTo := *to
+				newTo.SetParameters(to.GetParameters().Clone().(*core.NameValueList))
+				newTo.RemoveTag()
+				nextHeader = &newTo
 			}
 		} else if from, ok := nextHeader.(*header.From); ok {
 			if switchHeaders {
@@ -786,17 +792,20 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				nextHeader = to
 			} else {
 				//from2 := from.Clone().(*From)
-				from.RemoveTag()
-				nextHeader = from
+				newFrom := *from
+				newFrom.SetParameters(from.GetParameters().Clone().(*core.NameValueList))
+				newFrom.RemoveTag()
+				nextHeader = &newFrom
 			}
 		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
 			//ContentLength cl  =
 			//	(ContentLength) nextHeader.clone();
 			//try{
-			cl.SetContentLength(0)
+			newCl := *cl
+			newCl.SetContentLength(0)
 			//}
 			//catch(InvalidArgumentException e){}
-			nextHeader = cl
+			nextHeader = &newCl
 		} else {
 			_, ok1 := nextHeader.(*header.CallID)
 			_, ok2 := nextHeader.(*header.MaxForwards)
-- 
2.43.0


From 37ee89200fd1e92e153881d763ddaafb65e9469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:58 +0000
Subject: [PATCH 053/107] fix: do not change the request line of the request a
 BYE or ACK is created from

---
 sip/message/SIPRequest.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 7fae262..35721c7 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -837,9 +837,9 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
  *@return a new default BYE request.
  */
 func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := *this.requestLine
 	requestLine.SetMethod("BYE")
-	return this.CreateSIPRequest(requestLine, switchHeaders)
+	return this.CreateSIPRequest(&requestLine, switchHeaders)
 }
 
 /** Create an ACK request from this request. This is suitable for
@@ -849,9 +849,9 @@ func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
 *
  */
 func (this *SIPRequest) CreateACKRequest() *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := *this.requestLine
 	requestLine.SetMethod(ACK)
-	return this.CreateSIPRequest(requestLine, false)
+	return this.CreateSIPRequest(&requestLine, false)
 }
 
 /**
-- 
2.43.0


From 0698859c789be547edd756e9dabee3a01154f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 054/107] fix: remove the replaced header from the message, not
 only from its name table

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 762d989..4deae1e 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -601,7 +601,7 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 	}
 
 	if replaceFlag {
-		delete(this.nameTable, strings.ToLower(h.GetName()))
+		this.RemoveHeader(h.GetName())
 	} else {
 		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
 			if _, ok := h.(header.SIPHeaderLister); !ok {
-- 
2.43.0


From 804d4567e4b69fd1c681afbdfcd59b688a6b29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 055/107] fix: do not panic when a header list follows a single
 header of the same name

---
 sip/message/SIPMessage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 4deae1e..dba7114 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -631,11 +631,12 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		this.headers.PushBack(h)
 	} else {
 		if hs, ok := h.(header.SIPHeaderLister); ok {
-			hdrlist := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister)
-			if hdrlist != nil {
+			hdrlist, ok := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister)
+			if ok {
 				hdrlist.Concatenate(hs, top)
 			} else {
 				this.nameTable[strings.ToLower(h.GetName())] = h
+				this.headers.PushBack(h)
 			}
 		} else {
 			this.nameTable[strings.ToLower(h.GetName())] = h
-- 
2.43.0


From 185e9965a69d8c30dfcd8a8c2de7223e8add52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 056/107] fix: keep a Via, Contact, Route, Record-Route or
 Error-Info added by itself in the list its getter returns

---
 sip/message/SIPMessage.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index dba7114..b61a326 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -600,6 +600,30 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		return errors.New("NullPointerException: nil header")
 	}
 
+	// These are kept in lists, which is what their getters return.
+	switch h.(type) {
+	case *header.Via:
+		viaList := header.NewViaList()
+		viaList.PushBack(h)
+		h = viaList
+	case *header.Contact:
+		contactList := header.NewContactList()
+		contactList.PushBack(h)
+		h = contactList
+	case *header.Route:
+		routeList := header.NewRouteList()
+		routeList.PushBack(h)
+		h = routeList
+	case *header.RecordRoute:
+		recordRouteList := header.NewRecordRouteList()
+		recordRouteList.PushBack(h)
+		h = recordRouteList
+	case *header.ErrorInfo:
+		errorInfoList := header.NewErrorInfoList()
+		errorInfoList.PushBack(h)
+		h = errorInfoList
+	}
+
 	if replaceFlag {
 		this.RemoveHeader(h.GetName())
 	} else {
-- 
2.43.0


From 506f04e9318abf849dcdb6de49617aab6effdc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 057/107] fix: do not panic on a message without a Via when its
 via host, via port or transaction id is read

---
 sip/message/SIPMessage.go | 5 +----
 sip/message/SIPRequest.go | 9 ++++++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index b61a326..d6168db 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -802,10 +802,7 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
  *	the same computed transaction identifier).
  */
 func (this *SIPMessage) GetTransactionId() string {
-	var topVia *header.Via
-	if this.GetViaHeaders().Len() > 0 {
-		topVia = this.GetViaHeaders().Front().Value.(*header.Via)
-	}
+	topVia := this.GetTopmostVia()
 	// Have specified a branch Identifier so we can use it to identify
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 35721c7..66749c9 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -861,7 +861,10 @@ func (this *SIPRequest) CreateACKRequest() *SIPRequest {
 * header.
  */
 func (this *SIPRequest) GetViaHost() string {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
+	via := this.GetTopmostVia()
+	if via == nil {
+		return ""
+	}
 	return via.GetHost()
 }
 
@@ -872,8 +875,8 @@ func (this *SIPRequest) GetViaHost() string {
 *  no port indicated).
  */
 func (this *SIPRequest) GetViaPort() int {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
-	if via.HasPort() {
+	via := this.GetTopmostVia()
+	if via != nil && via.HasPort() {
 		return via.GetPort()
 	} else {
 		return 5060
-- 
2.43.0


From 7ff3351efba3c3672cb5592f96952ccfebe12190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 058/107] fix: do not panic when a message is encoded or given
 a body after its Content-Length was removed

---
 sip/message/SIPMessage.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index d6168db..3616f1a 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -359,7 +359,10 @@ func (this *SIPMessage) String() string {
 	}
 	//}
 
-	encoding.WriteString(this.contentLengthHeader.String() + core.SIPSeparatorNames_NEWLINE)
+	if this.contentLengthHeader != nil {
+		encoding.WriteString(this.contentLengthHeader.String())
+	}
+	encoding.WriteString(core.SIPSeparatorNames_NEWLINE)
 
 	if this.messageContentObject != nil {
 		mbody := this.GetContent()
@@ -630,7 +633,7 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
 			if _, ok := h.(header.SIPHeaderLister); !ok {
 				if cl, ok := h.(*header.ContentLength); ok {
-					this.contentLengthHeader.SetContentLength(cl.GetContentLength())
+					this.updateContentLength(cl.GetContentLength())
 				}
 				// Just ignore duplicate header.
 				return nil
@@ -1251,7 +1254,7 @@ func (this *SIPMessage) SetMessageContentFromString(t string, subType string, me
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.updateContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1290,7 +1293,7 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	// length = content.toString().length();
 
 	if length != -1 {
-		this.contentLengthHeader.SetContentLength(length)
+		this.updateContentLength(length)
 	}
 	// } catch (InvalidArgumentException ex) {}
 
@@ -1323,7 +1326,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 	this.SetHeader(ct)
 	this.SetMessageContentFromByte(messageContent)
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.updateContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1335,20 +1338,29 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 func (this *SIPMessage) SetMessageContent(content string) {
 	//int clength = (content == nil? 0: content.length());
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.updateContentLength(len(content))
 	// } catch (InvalidArgumentException ex) {}
 	this.messageContent = content
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 }
 
+// updateContentLength sets the value of the Content-Length header, which is
+// added again if it has been removed from the message.
+func (this *SIPMessage) updateContentLength(length int) {
+	if this.contentLengthHeader == nil {
+		this.AttachHeader2(header.NewContentLengthFromInt(0), false)
+	}
+	this.contentLengthHeader.SetContentLength(length)
+}
+
 /** Set the message content as an array of bytes.
  *
  *@param content is the content of the message as an array of bytes.
  */
 func (this *SIPMessage) SetMessageContentFromByte(content []byte) {
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.updateContentLength(len(content))
 	//} catch (InvalidArgumentException ex) {}
 
 	this.messageContentBytes = content
@@ -1364,7 +1376,7 @@ func (this *SIPMessage) RemoveContent() {
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(0)
+	this.updateContentLength(0)
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1664,7 +1676,7 @@ func (this *SIPMessage) SetContentLanguage(contentLanguageHeader header.ContentL
  */
 func (this *SIPMessage) SetContentLength(contentLength header.ContentLengthHeader) {
 	//try {
-	this.contentLengthHeader.SetContentLength(contentLength.GetContentLength())
+	this.updateContentLength(contentLength.GetContentLength())
 	//} catch (InvalidArgumentException ex) {}
 
 }
-- 
2.43.0


From 44c654a8bd898841e977503d761271451003eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:41 +0000
Subject: [PATCH 059/107] fix: encode the SIP version a status line was given

---
 sip/header/StatusLine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/StatusLine.go b/sip/header/StatusLine.go
index 353146f..957699d 100644
--- a/sip/header/StatusLine.go
+++ b/sip/header/StatusLine.go
@@ -78,7 +78,7 @@ func (this *StatusLine) SetMatchStatusClass(flag bool) {
  */
 func (this *StatusLine) String() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(SIPConstants_SIP_VERSION_STRING + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
+	encoding.WriteString(this.sipVersion + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
 	if this.reasonPhrase != "" {
 		encoding.WriteString(this.reasonPhrase)
 	}
-- 
2.43.0


From f2fc821870fed459b8923d54baeb1e7418b19a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 060/107] fix: do not panic when a list of Via or Contact
 headers is cloned

---
 sip/address/AddressImpl.go | 12 ++++++++++++
 sip/header/ContactImpl.go  | 16 ++++++++++++++++
 sip/header/ViaImpl.go      | 19 +++++++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 6395757..92f9faa 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -32,6 +32,18 @@ func NewAddressImpl() *AddressImpl {
 	return &AddressImpl{}
 }
 
+/** Deep copy clone operation.
+ *
+ *@return -- a cloned version of this address.
+ */
+func (this *AddressImpl) Clone() interface{} {
+	retval := *this
+	if this.address != nil {
+		retval.address = this.address.Clone().(URI)
+	}
+	return &retval
+}
+
 /** Match on the address only.
  * Dont care about the display name.
  */
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index c31902e..11a2fb3 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -33,6 +33,22 @@ func NewContact() *Contact {
 	return this
 }
 
+/** Deep copy clone operation.
+ *
+ *@return -- a cloned version of this contact.
+ */
+func (this *Contact) Clone() interface{} {
+	retval := *this
+	retval.contactList = NewContactList()
+	if this.parameters != nil {
+		retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	}
+	if addr, ok := this.addr.(*address.AddressImpl); ok {
+		retval.addr = addr.Clone().(*address.AddressImpl)
+	}
+	return &retval
+}
+
 func (this *Contact) super(hname string) {
 	this.AddressParameters.super(hname)
 	this.contactList = NewContactList()
diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 335f747..9836fd0 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -38,6 +38,25 @@ func NewVia() *Via {
 	return this
 }
 
+/** Deep copy clone operation.
+ *
+ *@return -- a cloned version of this via.
+ */
+func (this *Via) Clone() interface{} {
+	retval := *this
+	if this.parameters != nil {
+		retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	}
+	if this.sentProtocol != nil {
+		sentProtocol := *this.sentProtocol
+		retval.sentProtocol = &sentProtocol
+	}
+	if this.sentBy != nil {
+		retval.sentBy = this.sentBy.Clone().(*core.HostPort)
+	}
+	return &retval
+}
+
 func (this *Via) super(name string) {
 	this.Parameters.super(name)
 	this.sentProtocol = NewProtocol()
-- 
2.43.0


From bd5e570e4acfd4e32412a792b4a8033a7ae3b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 061/107] fix: read all four bits of the CSRC count of an RTP
 header

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 0760ec3..2df6a7f 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -128,7 +128,7 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
 		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
 		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & 0x07
+		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
 		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
 		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
 		//this.header_size = 12 + 4 * this.csrccount
-- 
2.43.0


From 31abc409bf98295a8c380587e098c76d2ded6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 062/107] fix: write the four bytes of a CSRC next to each
 other

---
 rtp/rtp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 2df6a7f..95bead3 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -191,9 +191,9 @@ func (this *RTPHeader) Encode() []byte {
 
 	for i := uint8(0); i < this.csrccount; i++ {
 		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 24) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 16) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 8) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 0) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+1] = byte((this.csrc[i] >> 16) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+2] = byte((this.csrc[i] >> 8) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+3] = byte((this.csrc[i] >> 0) & 0xFF)
 	}
 
 	return packetbytes
-- 
2.43.0


From 75ca9945d9bf8cebbb8861ed072331109a0f554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 063/107] fix: do not panic on an RTP header extension that has
 data or is longer than 64 kB

---
 rtp/rtp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 95bead3..50a6a17 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -231,7 +231,8 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp extendsion header size. error id/length")
 	}
 
-	for i := uint16(0); i < this.length; i++ {
+	this.data = make([]uint32, this.length)
+	for i := 0; i < int(this.length); i++ {
 		this.data[i] = uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+0])<<24 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+1])<<16 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+2])<<8 |
@@ -243,14 +244,14 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 
 func (this *RTPExtension) Encode() []byte {
 	var packetbytes []byte
-	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+this.length*4)
+	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+int(this.length)*4)
 
 	packetbytes[0] = byte((this.id >> 8) & 0xFF)
 	packetbytes[1] = byte((this.id >> 0) & 0xFF)
 	packetbytes[2] = byte((this.length >> 8) & 0xFF)
 	packetbytes[3] = byte((this.length >> 0) & 0xFF)
 
-	for i := uint16(0); i < this.length; i++ {
+	for i := 0; i < int(this.length); i++ {
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+0] = byte(this.data[i]>>24) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+1] = byte(this.data[i]>>16) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+2] = byte(this.data[i]>>8) & 0xFF
-- 
2.43.0


From 2db460714ae3b6b19002e9e5f54566929247c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 064/107] fix: keep the payload of a received RTP packet

---
 rtp/rtppacket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index a02a771..d7fe7a6 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -87,6 +87,7 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 	if payloadlength < 0 {
 		return errors.New("invalid payload length.")
 	}
+	rp.payload = rp.packet[payloadoffset : payloadoffset+payloadlength]
 
 	return nil
 }
-- 
2.43.0


From dd9fbc30963be95e08b31c9b90397849f474f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 065/107] fix: report missing CSRCs and extension data instead
 of panicking when an RTP packet is built

---
 rtp/rtppacket.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index d7fe7a6..0337a8d 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -146,6 +146,13 @@ func (rp *RTPPacket) BuildPacket(payloadtype uint8,
 		return errors.New("ERR_RTP_PACKET_TOOMANYCSRCS")
 	}
 
+	if int(numcsrcs) > len(csrcs) {
+		return errors.New("ERR_RTP_PACKET_MISSINGCSRCS")
+	}
+	if gotextension && int(extensionlen) > len(extensiondata) {
+		return errors.New("ERR_RTP_PACKET_MISSINGEXTENSIONDATA")
+	}
+
 	if payloadtype > 127 { // high bit should not be used
 		return errors.New("ERR_RTP_PACKET_BADPAYLOADTYPE")
 	}
-- 
2.43.0


From 42e2f9f1fb684e283e25acec193481a0b944302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 066/107] fix: do not panic when the header extension of an RTP
 packet without one is read

---
 rtp/rtppacket.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index 0337a8d..9fa34be 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -289,16 +289,25 @@ func (rp *RTPPacket) GetPayload() []byte {
 
 /** If a header extension is present, rp function returns the extension identifier. */
 func (rp *RTPPacket) GetExtensionID() uint16 {
+	if rp.extension == nil {
+		return 0
+	}
 	return rp.extension.id
 }
 
 /** Returns the length of the header extension data. */
 func (rp *RTPPacket) GetExtensionLength() uint16 {
+	if rp.extension == nil {
+		return 0
+	}
 	return rp.extension.length
 }
 
 /** Returns the header extension data. */
 func (rp *RTPPacket) GetExtensionData() []uint32 {
+	if rp.extension == nil {
+		return nil
+	}
 	return rp.extension.data
 }
 
-- 
2.43.0


From 7dbb316da50e75fc7cd8e49d89bedb8e8ea5d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 067/107] fix: do not panic on an RTCP packet without data

---
 rtp/rtcpapppacket.go | 3 +++
 rtp/rtcpbyepacket.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 6fba17f..505a1f4 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -22,6 +22,9 @@ func NewRTCPAPPPacket(data []byte, datalen int) *RTCPAPPPacket {
 	this.knownformat = false
 
 	this.appdatalen = datalen
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := this.data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index c994ce7..36107dd 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -23,6 +23,9 @@ func NewRTCPBYEPacket(data []byte, datalen int) *RTCPBYEPacket {
 
 	this.reasonoffset = 0
 	byelen := datalen
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
-- 
2.43.0


From bb4f056fad5bf586a8104b85312ef12792e804b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 068/107] fix: return only the name and only the data of an
 RTCP APP packet, without what follows them

---
 rtp/rtcpapppacket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 505a1f4..5fe47db 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -77,7 +77,7 @@ func (this *RTCPAPPPacket) GetName() []byte {
 		return nil
 	}
 
-	return this.data[SIZEOF_RTCPHEADER+4:] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
+	return this.data[SIZEOF_RTCPHEADER+4 : SIZEOF_RTCPHEADER+4*2] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
 }
 
 /** Returns a pointer to the actual data. */
@@ -88,7 +88,7 @@ func (this *RTCPAPPPacket) GetAPPData() []byte {
 	if this.appdatalen == 0 {
 		return nil
 	}
-	return this.data[SIZEOF_RTCPHEADER+4*2:]
+	return this.data[SIZEOF_RTCPHEADER+4*2 : SIZEOF_RTCPHEADER+4*2+this.appdatalen]
 }
 
 /** Returns the length of the actual data. */
-- 
2.43.0


From cca100cd1700163bfcdff2adedfec15151a0432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 069/107] fix: return only the reason of an RTCP BYE packet,
 without the padding that follows it

---
 rtp/rtcpbyepacket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index 36107dd..bd2786a 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -112,11 +112,11 @@ func (this *RTCPBYEPacket) GetReasonData() []byte {
 	if this.reasonoffset == 0 {
 		return nil
 	}
-	reasonlen := this.data[this.reasonoffset]
+	reasonlen := int(this.data[this.reasonoffset])
 	if reasonlen == 0 {
 		return nil
 	}
-	return this.data[this.reasonoffset+1:]
+	return this.data[this.reasonoffset+1 : this.reasonoffset+1+reasonlen]
 }
 
 func (this *RTCPBYEPacket) Dump() {
-- 
2.43.0


From d46fb99d5d84f579d5ad644e21aa9acb15855e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:57 +0000
Subject: [PATCH 070/107] fix: do not share the bytes of an IP address with its
 clone

---
 rtp/ipaddress.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index 7af517d..94ef77f 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -69,7 +69,7 @@ func (this *IPAddress) IsFromSameHost(addr Address) bool {
 }
 
 func (this *IPAddress) Clone() Address {
-	return &IPAddress{ip: this.ip, port: this.port}
+	return &IPAddress{ip: append(net.IP(nil), this.ip...), port: this.port}
 }
 
 func (this *IPAddress) String() string {
-- 
2.43.0


From 3d878427b6e2edb1ac8b5ced65c100d216dc8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 071/107] fix: recognise an IPv4 address in its 16-byte form,
 and do not panic on an empty address list

---
 rtp/ipaddress.go        | 2 +-
 rtp/transmissioninfo.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index 94ef77f..c5327e7 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -43,7 +43,7 @@ func (this *IPAddress) GetPort() uint16 {
 
 /////////////////////////////////
 func (this *IPAddress) GetAddressType() AddressType {
-	if len(this.ip) == 4 {
+	if this.ip.To4() != nil {
 		return IPv4AddressType
 	} else {
 		return IPv6AddressType
diff --git a/rtp/transmissioninfo.go b/rtp/transmissioninfo.go
index c515ab0..0d22125 100644
--- a/rtp/transmissioninfo.go
+++ b/rtp/transmissioninfo.go
@@ -28,7 +28,7 @@ type TransmissionInfo struct {
 
 func NewTransmissionInfo(iplist []net.IP, rtpsock, rtcpsock int) *TransmissionInfo {
 	this := &TransmissionInfo{}
-	if len(iplist[0]) == 4 {
+	if len(iplist) > 0 && iplist[0].To4() != nil {
 		this.protocol = IPv4UDPProto
 	} else {
 		this.protocol = IPv6UDPProto
-- 
2.43.0


From e36da619ff1d9ce3a3a4adc704711970db3c26d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 072/107] fix: widen bytes before they are shifted in the RTP
 read helpers

---
 rtp/rtp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 50a6a17..d7b201f 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -101,13 +101,13 @@ func CheckEndian() {
 
 /* helper, read a big-endian 16 bit int from memory */
 func rbe16(p []byte) int {
-	v := int(p[0]<<8 | p[1])
+	v := int(p[0])<<8 | int(p[1])
 	return v
 }
 
 /* helper, read a big-endian 32 bit int from memory */
 func rbe32(p []byte) int {
-	v := int(p[0]<<24 | p[1]<<16 | p[2]<<8 | p[3])
+	v := int(p[0])<<24 | int(p[1])<<16 | int(p[2])<<8 | int(p[3])
 	return v
 }
 
-- 
2.43.0


From b1589ef9476e12f816f4afa8a82422b77fc4e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 073/107] fix: hold the lock while the random number generator
 is seeded

---
 rtp/random.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtp/random.go b/rtp/random.go
index 543f9a0..1017fbe 100644
--- a/rtp/random.go
+++ b/rtp/random.go
@@ -54,7 +54,11 @@ func (this *RandomRand48) PickSeed() uint32 {
 }
 
 func (this *RandomRand48) SetSeed(seed uint32) {
+	this.mutex.Lock()
+
 	this.state = (uint64(seed) << 16) | uint64(0x330E)
+
+	this.mutex.Unlock()
 }
 
 func (this *RandomRand48) GetRandom8() uint8 {
-- 
2.43.0


From 5c16f1a2da03a6d517e286af23772054683856c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 074/107] fix: lay out the RTP header in network order on every
 host and without a racy global

---
 rtp/rtp.go | 75 ++++++++++++------------------------------------------
 1 file changed, 16 insertions(+), 59 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index d7b201f..b5623b2 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -2,7 +2,6 @@ package rtp
 
 import (
 	"errors"
-	"unsafe"
 )
 
 const RTP_VERSION = 2
@@ -65,40 +64,18 @@ type RTPHeader struct {
 func NewRTPHeader() *RTPHeader {
 	this := &RTPHeader{}
 
-	CheckEndian()
-
 	return this
 }
 
 func NewRTPHeaderFromBytes(packetbytes []byte) (*RTPHeader, error) {
 	this := &RTPHeader{}
 
-	CheckEndian()
-
 	if err := this.Parse(packetbytes); err != nil {
 		return nil, err
 	}
 	return this, nil
 }
 
-const INT_SIZE int = int(unsafe.Sizeof(0))
-
-var (
-	bigEndian = int(-1)
-)
-
-func CheckEndian() {
-	if bigEndian == -1 {
-		var i int = 0x1
-		bs := (*[INT_SIZE]byte)(unsafe.Pointer(&i))
-		if bs[0] == 0 {
-			bigEndian = 1
-		} else {
-			bigEndian = 0
-		}
-	}
-}
-
 /* helper, read a big-endian 16 bit int from memory */
 func rbe16(p []byte) int {
 	v := int(p[0])<<8 | int(p[1])
@@ -116,25 +93,15 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp header size")
 	}
 
-	if bigEndian == 1 {
-		this.version = (packetbytes[0] >> RTP_HEADER_V_POS) & RTP_HEADER_V_MSK
-		this.padding = (packetbytes[0] >> RTP_HEADER_P_POS) & RTP_HEADER_P_MSK
-		this.extension = (packetbytes[0] >> RTP_HEADER_X_POS) & RTP_HEADER_X_MSK
-		this.csrccount = (packetbytes[0] >> RTP_HEADER_CC_POS) & RTP_HEADER_CC_MSK
-		this.marker = (packetbytes[1] >> RTP_HEADER_M_POS) & RTP_HEADER_M_MSK
-		this.payloadtype = (packetbytes[1] >> RTP_HEADER_PT_POS) & RTP_HEADER_PT_MSK
-		//log.Printf("BigEndian[%v]. RTP Version:%v, PT:%v", packetbytes[0:12], this.version, this.payloadtype)
-	} else {
-		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
-		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
-		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
-		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
-		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
-		//this.header_size = 12 + 4 * this.csrccount
-		//this.payload_size = len(packetbytes) - this.header_size
-		//log.Printf("LittleEndian[%v]. RTP Version:%v, PT:%v", packetbytes[0:12], this.version, this.payloadtype)
-	}
+	this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
+	this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
+	this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
+	this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
+	this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
+	this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
+	//this.header_size = 12 + 4 * this.csrccount
+	//this.payload_size = len(packetbytes) - this.header_size
+	//log.Printf("LittleEndian[%v]. RTP Version:%v, PT:%v", packetbytes[0:12], this.version, this.payloadtype)
 
 	this.sequencenumber = uint16(packetbytes[2])<<8 | uint16(packetbytes[3])
 	this.timestamp = uint32(packetbytes[4])<<24 | uint32(packetbytes[5])<<16 | uint32(packetbytes[6])<<8 | uint32(packetbytes[7])
@@ -158,23 +125,13 @@ func (this *RTPHeader) Encode() []byte {
 	var packetbytes []byte
 	packetbytes = make([]byte, SIZEOF_RTPHEADER+int(this.csrccount)*4)
 
-	if bigEndian == 1 {
-		packetbytes[0] = ((this.version & RTP_HEADER_V_MSK) << RTP_HEADER_V_POS) |
-			((this.padding & RTP_HEADER_P_MSK) << RTP_HEADER_P_POS) |
-			((this.extension & RTP_HEADER_X_MSK) << RTP_HEADER_X_POS) |
-			((this.csrccount & RTP_HEADER_CC_MSK) << RTP_HEADER_CC_POS)
-
-		packetbytes[1] = ((this.marker & RTP_HEADER_M_MSK) << RTP_HEADER_M_POS) |
-			((this.payloadtype & RTP_HEADER_PT_MSK) << RTP_HEADER_PT_POS)
-	} else {
-		packetbytes[0] = ((this.csrccount & RTP_HEADER_CC_MSK) << 0) |
-			((this.extension & RTP_HEADER_X_MSK) << 4) |
-			((this.padding & RTP_HEADER_P_MSK) << 5) |
-			((this.version & RTP_HEADER_V_MSK) << 6)
-
-		packetbytes[1] = ((this.payloadtype & RTP_HEADER_PT_MSK) << 0) |
-			((this.marker & RTP_HEADER_M_MSK) << 7)
-	}
+	packetbytes[0] = ((this.csrccount & RTP_HEADER_CC_MSK) << 0) |
+		((this.extension & RTP_HEADER_X_MSK) << 4) |
+		((this.padding & RTP_HEADER_P_MSK) << 5) |
+		((this.version & RTP_HEADER_V_MSK) << 6)
+
+	packetbytes[1] = ((this.payloadtype & RTP_HEADER_PT_MSK) << 0) |
+		((this.marker & RTP_HEADER_M_MSK) << 7)
 
 	packetbytes[2] = byte((this.sequencenumber >> 8) & 0xFF)
 	packetbytes[3] = byte(this.sequencenumber & 0xFF)
-- 
2.43.0


From 99dba98cccde8f233b14648076dad0817869bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 075/107] fix: do not panic on the first or last element of an
 empty Accept-Language list

---
 sip/header/AcceptLanguageList.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sip/header/AcceptLanguageList.go b/sip/header/AcceptLanguageList.go
index 863acf5..c6aa884 100644
--- a/sip/header/AcceptLanguageList.go
+++ b/sip/header/AcceptLanguageList.go
@@ -18,18 +18,16 @@ func NewAcceptLanguageList() *AcceptLanguageList {
 }
 
 func (this *AcceptLanguageList) GetFirst() Header {
-	retval := this.SIPHeaderList.Front().Value.(Header)
-	if retval != nil {
-		return retval
+	if e := this.SIPHeaderList.Front(); e != nil {
+		return e.Value.(Header)
 	} else {
 		return NewAcceptLanguage()
 	}
 }
 
 func (this *AcceptLanguageList) GetLast() Header {
-	retval := this.SIPHeaderList.Back().Value.(Header)
-	if retval != nil {
-		return retval
+	if e := this.SIPHeaderList.Back(); e != nil {
+		return e.Value.(Header)
 	} else {
 		return NewAcceptLanguage()
 	}
-- 
2.43.0


From c33debb78005cf656d002cbad2069886bb5c4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 076/107] fix: SetMethods of Allow and Allow-Events lists
 replaces the methods, and keeps them when one is refused

---
 sip/header/AllowEventsList.go | 5 ++++-
 sip/header/AllowList.go       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/header/AllowEventsList.go b/sip/header/AllowEventsList.go
index 18df735..559a96d 100644
--- a/sip/header/AllowEventsList.go
+++ b/sip/header/AllowEventsList.go
@@ -59,6 +59,7 @@ func (this *AllowEventsList) GetMethods() *list.List {
  */
 
 func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException error) {
+	allowed := list.New()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allowEvents := NewAllowEvents()
 		if str, ok := e.Value.(string); ok {
@@ -69,8 +70,10 @@ func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException erro
 			return errors.New("ParseException: the eventType parameter is not string")
 		}
 
-		this.PushBack(allowEvents)
+		allowed.PushBack(allowEvents)
 	}
+	this.Init()
+	this.PushBackList(allowed)
 
 	return nil
 }
diff --git a/sip/header/AllowList.go b/sip/header/AllowList.go
index 753297b..ddb36f7 100644
--- a/sip/header/AllowList.go
+++ b/sip/header/AllowList.go
@@ -60,6 +60,7 @@ func (this *AllowList) GetMethods() *list.List {
 
 func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 
+	allowed := list.New()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allow := NewAllow()
 		if str, ok := e.Value.(string); ok {
@@ -70,7 +71,9 @@ func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 			return errors.New("ParseException: the method parameter is not string")
 		}
 
-		this.PushBack(allow)
+		allowed.PushBack(allow)
 	}
+	this.Init()
+	this.PushBackList(allowed)
 	return nil
 }
-- 
2.43.0


From 0cfb29d584c1775a971f1610d00621e572a11e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 077/107] fix: a Call-ID that is refused does not erase the
 Call-ID a header had

---
 sip/header/CallIdImpl.go    | 5 ++++-
 sip/header/InReplyToImpl.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index 58a901f..f4d89ff 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -97,7 +97,10 @@ func (this *CallID) GetCallIdentifer() *CallIdentifier {
          * not a token@token.
 */
 func (this *CallID) SetCallId(cid string) (ParseException error) {
-	this.callIdentifier, ParseException = NewCallIdentifier(cid)
+	callIdentifier, ParseException := NewCallIdentifier(cid)
+	if ParseException == nil {
+		this.callIdentifier = callIdentifier
+	}
 	return ParseException
 }
 
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index c3be885..8e53f51 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -38,7 +38,10 @@ func NewInReplyToFromCallIdentifier(cid *CallIdentifier) *InReplyTo {
  * unexpectedly while parsing the callId value.
  */
 func (this *InReplyTo) SetCallId(callId string) (ParseException error) {
-	this.callId, ParseException = NewCallIdentifier(callId)
+	cid, ParseException := NewCallIdentifier(callId)
+	if ParseException == nil {
+		this.callId = cid
+	}
 	return ParseException
 }
 
-- 
2.43.0


From 84e09f213e1ab0f9f5043fcae0e10ee2e23dea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 078/107] fix: a call identifier that is refused does not
 change the object

---
 sip/header/CallIdentifier.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sip/header/CallIdentifier.go b/sip/header/CallIdentifier.go
index 22c4a40..621a2c5 100644
--- a/sip/header/CallIdentifier.go
+++ b/sip/header/CallIdentifier.go
@@ -118,11 +118,13 @@ func (this *CallIdentifier) SetCallID(cid string) (IllegalArgumentException erro
 		this.localId = cid
 		this.host = ""
 	} else {
-		this.localId = cid[0:index]
-		this.host = cid[index+1 : len(cid)]
-		if this.localId == "" || this.host == "" {
+		localId := cid[0:index]
+		host := cid[index+1 : len(cid)]
+		if localId == "" || host == "" {
 			return errors.New("IllegalArgumentException: CallID  must be token@token or token")
 		}
+		this.localId = localId
+		this.host = host
 	}
 
 	return nil
-- 
2.43.0


From 042f38ac3590f1a46ec715d89559320476d6bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 079/107] fix: refuse a ttl above 255 in a Via, as the
 interface promises

---
 sip/header/ViaImpl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 9836fd0..a240c93 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -386,8 +386,8 @@ func (this *Via) GetTTL() int {
  * greater than 255, excluding -1 the default not set value.
  */
 func (this *Via) SetTTL(ttl int) (InvalidArgumentException error) {
-	if ttl < 0 && ttl != -1 {
-		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0")
+	if (ttl < 0 && ttl != -1) || ttl > 255 {
+		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0 or > 255")
 	}
 	this.SetParameter(ParameterNames_TTL, strconv.Itoa(ttl))
 	return nil
-- 
2.43.0


From f1ba7c4867f59902a188e26d69faf188f0c2b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 080/107] fix: refuse a negative expires in a Contact, as the
 interface promises

---
 sip/header/ContactImpl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 11a2fb3..f9a0273 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -132,6 +132,9 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
+	if expiryDeltaSeconds < 0 {
+		return errors.New("InvalidArgumentException: GoSIP Exception, Contact, SetExpires(), the expires parameter is < 0")
+	}
 	this.parameters.SetNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
 	return nil
 }
-- 
2.43.0


From 3e6673b81c6ad878852d820da59d2a329a80b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 081/107] fix: refuse a negative cause in a Reason, as the
 interface promises

---
 sip/header/ReasonImpl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 093b66a..bbf9e38 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -2,6 +2,7 @@ package header
 
 import (
 	"bytes"
+	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
 )
@@ -36,6 +37,9 @@ func (this *Reason) GetCause() int {
  *@param cause - cause to Set.
  */
 func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
+	if cause < 0 {
+		return errors.New("InvalidArgumentException: GoSIP Exception, Reason, SetCause(), the cause is < 0")
+	}
 	this.parameters.SetNameAndValue("cause", strconv.Itoa(cause))
 	return nil
 }
-- 
2.43.0


From 31828cdf12927d97ac38db942bf628a2b49bdfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 082/107] fix: Via.RemovePort removes the port only, not the
 whole sent-by

---
 sip/header/ViaImpl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index a240c93..e31eacd 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -154,7 +154,9 @@ func (this *Via) HasComment() bool {
 /** remove the port.
  */
 func (this *Via) RemovePort() {
-	this.sentBy = nil
+	if this.sentBy != nil {
+		this.sentBy.RemovePort()
+	}
 }
 
 /** remove the comment field.
-- 
2.43.0


From 2968da94bc6226ff55ebe56d0991d609f4a7c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 083/107] fix: encode dates in GMT, whatever zone they were
 given in

---
 sip/header/DateImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 84ab4d8..9276b7c 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -36,7 +36,7 @@ func (this *Date) EncodeBody() string {
 	if this.date == nil {
 		return ""
 	}
-	return this.date.Format(time.RFC1123)
+	return this.date.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
 }
 
 /**
-- 
2.43.0


From 8fd9fee88d81ac39bebadd98dd0aa875e791e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 084/107] fix: quote the text of a Reason when it is set, as
 when it is parsed

---
 sip/header/ReasonImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index bbf9e38..6dff4b9 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -67,7 +67,7 @@ func (this *Reason) GetProtocol() string {
  *@param text -- string text to Set.
  */
 func (this *Reason) SetText(text string) (ParseException error) {
-	this.parameters.SetNameAndValue("text", text)
+	this.SetQuotedParameter("text", text)
 	return nil
 }
 
-- 
2.43.0


From 6d9d6b01afd3fcbb5d063b1b96d6d4f74619a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 085/107] fix: quote the message of an Error-Info

---
 sip/header/ErrorInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index 260869b..135fc2b 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -93,7 +93,7 @@ func (this *ErrorInfo) SetErrorMessage(message string) (ParseException error) {
 	if message == "" {
 		return errors.New("NullPointerException: the message parameter is null")
 	}
-	this.SetParameter("message", message)
+	this.SetQuotedParameter("message", message)
 	return nil
 }
 
-- 
2.43.0


From 769d9331cd656b5d228ead914b11f2a8c613e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 086/107] fix: separate authentication parameters by commas
 after the list was replaced

---
 sip/header/AuthenticationImpl.go     | 10 ++++++++++
 sip/header/AuthenticationInfoImpl.go | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 4c9edc8..2411cfd 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -27,6 +27,16 @@ func NewAuthentication(name string) *Authentication {
 	return this
 }
 
+/** Set the parameter list. The parameters of this header are separated
+ * by commas.
+ */
+func (this *Authentication) SetParameters(parameters *core.NameValueList) {
+	if parameters != nil {
+		parameters.SetSeparator(core.SIPSeparatorNames_COMMA)
+	}
+	this.Parameters.SetParameters(parameters)
+}
+
 func (this *Authentication) super(name string) {
 	this.Parameters.super(name)
 	this.parameters.SetSeparator(core.SIPSeparatorNames_COMMA)
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 1092d36..4e00a28 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -23,6 +23,16 @@ func NewAuthenticationInfo() *AuthenticationInfo {
 	return this
 }
 
+/** Set the parameter list. The parameters of this header are separated
+ * by commas.
+ */
+func (this *AuthenticationInfo) SetParameters(parameters *core.NameValueList) {
+	if parameters != nil {
+		parameters.SetSeparator(core.SIPSeparatorNames_COMMA)
+	}
+	this.Parameters.SetParameters(parameters)
+}
+
 func (this *AuthenticationInfo) Add(nv *core.NameValue) {
 	this.parameters.AddNameValue(nv)
 }
-- 
2.43.0


From 2c565612ecc36c83e6da76053c86b1c7b713cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 087/107] fix: write the number of a Retry-After that is zero

---
 sip/header/RetryAfterImpl.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index a881890..a3858f6 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -39,9 +39,7 @@ func (this *RetryAfter) String() string {
  */
 func (this *RetryAfter) EncodeBody() string {
 	var encoding bytes.Buffer
-	if this.retryAfter != 0 {
-		encoding.WriteString(strconv.Itoa(this.retryAfter))
-	}
+	encoding.WriteString(strconv.Itoa(this.retryAfter))
 	if this.comment != "" {
 		encoding.WriteString(core.SIPSeparatorNames_SP + "(")
 		encoding.WriteString(this.comment)
-- 
2.43.0


From a79ff7f78c6bb76ac51f281956ff1458dd313bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 088/107] fix: add a Via on top of the others, as AddHeader
 documents

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 3616f1a..7e325ac 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1515,7 +1515,7 @@ func (this *SIPMessage) AddHeader(sipHeader header.Header) {
 	// Content length is never stored. Just computed.
 	sh := sipHeader.(header.Header)
 	//try {
-	if _, ok := sipHeader.(header.ViaHeader); ok {
+	if _, ok := sipHeader.(*header.Via); ok {
 		this.AttachHeader3(sh, false, true)
 	} else {
 		this.AttachHeader3(sh, false, false)
-- 
2.43.0


From c6a7f700e59391c7be37f553b9e2df2e9f3a9f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 089/107] fix: spell the reason phrases of 421 and 488

---
 sip/message/SIPResponse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 6a61e79..2325778 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -116,7 +116,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Bad extension"
 
 	case EXTENSION_REQUIRED:
-		retval = "Etension Required"
+		retval = "Extension Required"
 
 	case INTERVAL_TOO_BRIEF:
 		retval = "Interval too brief"
@@ -143,7 +143,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Request Terminated"
 
 	case NOT_ACCEPTABLE_HERE:
-		retval = "Not Accpetable here"
+		retval = "Not Acceptable here"
 
 	case BAD_EVENT:
 		retval = "Bad Event"
-- 
2.43.0


From 1db167df564181f77c624c4a3fa6ef0e6b34d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 090/107] fix: leave single Require and Proxy-Require headers
 out of a CANCEL as well

---
 sip/message/SIPRequest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 66749c9..44d47a5 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -586,8 +586,12 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 		nextHeader := headerIterator.Value.(header.Header)
 		if _, ok := nextHeader.(*header.RequireList); ok {
 			continue
+		} else if _, ok := nextHeader.(*header.Require); ok {
+			continue
 		} else if _, ok := nextHeader.(*header.ProxyRequireList); ok {
 			continue
+		} else if _, ok := nextHeader.(*header.ProxyRequire); ok {
+			continue
 		} else if _, ok := nextHeader.(*header.ContentLength); ok {
 			continue
 		} else if _, ok := nextHeader.(*header.ContentType); ok {
-- 
2.43.0


From 80edf28cc43ef6da8eeb25968ebe88b98e4187f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 091/107] fix: know lists of request and response headers for
 what they are

---
 sip/message/SIPMessage.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 7e325ac..a886d6a 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -76,9 +76,15 @@ func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
 	if _, ok = sipHeader.(*header.AlertInfo); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.AlertInfoList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.InReplyTo); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.InReplyToList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.Authorization); ok {
 		return true
 	}
@@ -119,24 +125,39 @@ func (this *SIPMessage) IsResponseHeader(sipHeader header.Header) bool {
 	if _, ok = sipHeader.(*header.ErrorInfo); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.ErrorInfoList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.ProxyAuthenticate); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.ProxyAuthenticateList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.Server); ok {
 		return true
 	}
 	if _, ok = sipHeader.(*header.Unsupported); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.UnsupportedList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.RetryAfter); ok {
 		return true
 	}
 	if _, ok = sipHeader.(*header.Warning); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.WarningList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.WWWAuthenticate); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.WWWAuthenticateList); ok {
+		return true
+	}
 
 	return false
 }
-- 
2.43.0


From 97fc8c2065682b4f66c020f7e90e0c50d0cdcbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 092/107] fix: a method named like a header or another keyword
 of the lexer is a method

---
 sip/parser/SIPParser.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 12c0157..8465e84 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -178,15 +178,8 @@ func (this *SIPParser) Method() (s string, ParseException error) {
 	}
 
 	token := tokens[0]
-	if token.GetTokenType() == TokenTypes_INVITE ||
-		token.GetTokenType() == TokenTypes_ACK ||
-		token.GetTokenType() == TokenTypes_OPTIONS ||
-		token.GetTokenType() == TokenTypes_BYE ||
-		token.GetTokenType() == TokenTypes_REGISTER ||
-		token.GetTokenType() == TokenTypes_CANCEL ||
-		token.GetTokenType() == TokenTypes_SUBSCRIBE ||
-		token.GetTokenType() == TokenTypes_NOTIFY ||
-		token.GetTokenType() == TokenTypes_ID {
+	// any token is a method, one that is a keyword elsewhere too
+	if tokenType := token.GetTokenType(); tokenType > core.CORELEXER_START && tokenType < core.CORELEXER_END {
 		this.GetLexer().Consume()
 		return token.GetTokenValue(), nil
 	} else {
-- 
2.43.0


From a80d763ac74936f28f6ca48ef44fb1add7d2be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 093/107] fix: the value of a quoted header parameter is read
 without its quotes, as the setters make it

---
 sip/parser/ParametersParser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index 64fe621..651c530 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -52,9 +52,7 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		}
 
 		if nv.IsValueQuoted() {
-			if ParseException = parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\""); ParseException != nil {
-				return ParseException
-			}
+			parametersHeader.SetQuotedParameter(nv.GetName(), nv.GetValue().(string))
 		} else {
 			if ParseException = parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
 				return ParseException
-- 
2.43.0


From c8428ed9368edcc62d712edf674d6040cf51b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 094/107] fix: In-Reply-To takes every call identifier and
 blanks around commas

---
 sip/parser/InReplyToParser.go | 52 ++++-------------------------------
 1 file changed, 6 insertions(+), 46 deletions(-)

diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index af18d99..20be5b8 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strings"
+
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 )
@@ -46,61 +48,19 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		// a call identifier has more characters than a token
+		value := strings.TrimSpace(lexer.ByteStringNoComma())
+		if ParseException = inReplyTo.SetCallId(value); ParseException != nil {
 			return nil, ParseException
 		}
-		token := lexer.GetNextToken()
-		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			if _, ParseException = lexer.Match('@'); ParseException != nil {
-				return nil, ParseException
-			}
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			secToken := lexer.GetNextToken()
-			if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" + secToken.GetTokenValue()); ParseException != nil {
-				return nil, ParseException
-			}
-		} else {
-			if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
-				return nil, ParseException
-			}
-		}
-
-		lexer.SPorHT()
 
 		inReplyToList.PushBack(inReplyTo)
 
-		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
+		if ch, _ = lexer.LookAheadK(0); ch == ',' {
 			if _, ParseException = lexer.Match(','); ParseException != nil {
 				return nil, ParseException
 			}
 			lexer.SPorHT()
-
-			inReplyTo = header.NewInReplyTo()
-
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				if _, ParseException = lexer.Match('@'); ParseException != nil {
-					return nil, ParseException
-				}
-				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-					return nil, ParseException
-				}
-				secToken := lexer.GetNextToken()
-				if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" + secToken.GetTokenValue()); ParseException != nil {
-					return nil, ParseException
-				}
-			} else {
-				if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
-					return nil, ParseException
-				}
-			}
-
-			inReplyToList.PushBack(inReplyTo)
 		}
 	}
 
-- 
2.43.0


From ef4861cad8345d8ad5e4120d690a698964e5b741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 095/107] fix: blanks before the parameters and commas of
 Accept-Encoding and Accept-Language

---
 sip/parser/AcceptEncodingParser.go | 1 +
 sip/parser/AcceptLanguageParser.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index c6841f8..bec1e36 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -83,6 +83,7 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 				}
 			}
 
+			lexer.SPorHT()
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 				if _, ParseException = lexer.Match(';'); ParseException != nil {
 					return nil, ParseException
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index 016a372..30080e6 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -71,6 +71,7 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
 
+		lexer.SPorHT()
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 			if _, ParseException = lexer.Match(';'); ParseException != nil {
 				return nil, ParseException
-- 
2.43.0


From 9562ba3ada8a477bd11850386463c7a386300a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 096/107] fix: blanks around the slash of a media type

---
 sip/parser/AcceptParser.go      | 4 ++++
 sip/parser/ContentTypeParser.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 4c22943..425712a 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -60,9 +60,11 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match('/'); ParseException != nil {
 		return nil, ParseException
 	}
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
@@ -88,9 +90,11 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
+		lexer.SPorHT()
 		if _, ParseException = lexer.Match('/'); ParseException != nil {
 			return nil, ParseException
 		}
+		lexer.SPorHT()
 		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 			return nil, ParseException
 		}
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index 9cf2138..553c206 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -45,6 +45,7 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	if _, ParseException = lexer.Match('/'); ParseException != nil {
 		return nil, ParseException
 	}
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
-- 
2.43.0


From 84a42b3f49a751ddedb38f368a31e0c7ef46ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:48 +0000
Subject: [PATCH 097/107] fix: blanks around the parameters of
 Subscription-State

---
 sip/parser/SubscriptionStateParser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index b6055e7..5764072 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -55,6 +55,7 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		return nil, ParseException
 	}
 
+	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		if _, ParseException = lexer.Match(';'); ParseException != nil {
 			return nil, ParseException
@@ -65,6 +66,7 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		}
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
+		lexer.SPorHT()
 		if strings.ToLower(value) == "reason" {
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
-- 
2.43.0


From 33be2eb402be64388ee7b66681c4e7de96d6cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 098/107] fix: blanks around the colon before the port of a Via

---
 sip/parser/ViaParser.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 0bf46b3..8357559 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -77,10 +77,24 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	// sent-By
 	hnp := core.NewHostNameParserFromLexer(this.GetLexer())
 
-	var hostPort *core.HostPort
-	if hostPort, ParseException = hnp.GetHostPort(); ParseException != nil {
+	var host *core.Host
+	if host, ParseException = hnp.GetHost(); ParseException != nil {
 		return ParseException
 	}
+	hostPort := core.NewHostPort()
+	hostPort.SetHost(host)
+
+	// there may be blanks around the colon
+	lexer.SPorHT()
+	if la, _ := lexer.LookAheadK(0); la == ':' {
+		lexer.ConsumeK(1)
+		lexer.SPorHT()
+		var port int
+		if port, ParseException = lexer.Number(); ParseException != nil {
+			return ParseException
+		}
+		hostPort.SetPort(port)
+	}
 	v.SetSentBy(hostPort)
 
 	// Ignore blanks
-- 
2.43.0


From 16557c02dcb5b27a24bba652a35600c294a4454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 099/107] fix: the agent of a Warning may be a host with a port

---
 sip/parser/WarningParser.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 94b26b6..7e4df59 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -64,11 +64,11 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		var agent string
+		if agent, ParseException = this.agent(); ParseException != nil {
 			return nil, ParseException
 		}
-		token = lexer.GetNextToken()
-		if ParseException = warning.SetAgent(token.GetTokenValue()); ParseException != nil {
+		if ParseException = warning.SetAgent(agent); ParseException != nil {
 			return nil, ParseException
 		}
 		lexer.SPorHT()
@@ -109,11 +109,11 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 
 			// Parsing the agent
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			var agent string
+			if agent, ParseException = this.agent(); ParseException != nil {
 				return nil, ParseException
 			}
-			tok = lexer.GetNextToken()
-			if ParseException = warning.SetAgent(tok.GetTokenValue()); ParseException != nil {
+			if ParseException = warning.SetAgent(agent); ParseException != nil {
 				return nil, ParseException
 			}
 			lexer.SPorHT()
@@ -134,3 +134,24 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 	return warningList, nil
 }
+
+/** parse the agent: a token, or a host with an optional port
+ */
+func (this *WarningParser) agent() (agent string, ParseException error) {
+	lexer := this.GetLexer()
+	mark := lexer.MarkInputPosition()
+	if la, _ := lexer.LookAheadK(0); la == '[' {
+		if _, ParseException = core.NewHostNameParserFromLexer(lexer).GetHost(); ParseException != nil {
+			return "", ParseException
+		}
+	} else if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return "", ParseException
+	}
+	if la, _ := lexer.LookAheadK(0); la == ':' {
+		lexer.ConsumeK(1)
+		if _, ParseException = lexer.Number(); ParseException != nil {
+			return "", ParseException
+		}
+	}
+	return lexer.GetBuffer()[mark:lexer.MarkInputPosition()], nil
+}
-- 
2.43.0


From 844d15b3737dc7ff26d2067c3aa83ffeca5637d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 100/107] fix: the character set of a Content-Type is its
 parameter charset

---
 sip/header/ContentTypeImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ContentTypeImpl.go b/sip/header/ContentTypeImpl.go
index 9a44824..73f236b 100644
--- a/sip/header/ContentTypeImpl.go
+++ b/sip/header/ContentTypeImpl.go
@@ -130,7 +130,7 @@ func (this *ContentType) GetContentType() string {
 /** Get the charSet parameter.
  */
 func (this *ContentType) GetCharSet() string {
-	return this.GetParameter("charSet")
+	return this.GetParameter("charset")
 }
 
 /**
-- 
2.43.0


From 13e8259ead73b0f848a2b283e45cddf2d3eb15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 101/107] fix: blanks after the seconds of an Expires

---
 sip/parser/ExpiresParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index f940f17..8a34986 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -46,6 +46,7 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	}
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
 		return nil, ParseException
 	}
-- 
2.43.0


From 82c2f717089d230a6a4d46a36d7ec851c74582c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 102/107] fix: the received address of a Via ends before the
 next Via, a blank or a comment

---
 sip/parser/ViaParser.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 8357559..1bfe827 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strings"
@@ -154,7 +155,7 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 		if strings.ToLower(name.GetTokenValue()) == core.SIPParameters_RECEIVED {
 			// Allow for IPV6 Addresses.
 			// these could have : in them!
-			str = lexer.ByteStringNoSemicolon()
+			str = this.received()
 		} else {
 			if la, _ = lexer.LookAheadK(0); la == '"' {
 				if str, ParseException = lexer.QuotedString(); ParseException != nil {
@@ -179,6 +180,23 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	}
 }
 
+/** The value of a received parameter: it ends where the next parameter, the
+ * comment or the next Via begins.
+ */
+func (this *ViaParser) received() string {
+	lexer := this.GetLexer()
+	var value bytes.Buffer
+	for {
+		la, err := lexer.LookAheadK(0)
+		if err != nil || strings.IndexByte(";,( \t\n", la) >= 0 {
+			break
+		}
+		lexer.ConsumeK(1)
+		value.WriteByte(la)
+	}
+	return value.String()
+}
+
 func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 
-- 
2.43.0


From f25518b1891e1cce59f1e57fa8dae9ab15e933dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 103/107] fix: keep the bytes of a header line that is not
 ASCII

---
 sip/parser/StringMsgParser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 3cc9331..3d4904d 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -514,7 +514,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 
 	h += "\n\n"
 	// Handle line folding.
-	var nmessage string
+	var folded bytes.Buffer
 	//counter := 0
 	// eat leading spaces and carriage returns (necessary??)
 	i := 0
@@ -523,14 +523,15 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	}
 	for ; i < len(h); i++ {
 		if i < len(h)-1 && (h[i] == '\n' && (h[i+1] == '\t' || h[i+1] == ' ')) {
-			nmessage += " "
+			folded.WriteByte(' ')
 			i++
 		} else {
-			nmessage += string(h[i])
+			folded.WriteByte(h[i])
 		}
 	}
 
-	nmessage += "\n"
+	folded.WriteByte('\n')
+	nmessage := folded.String()
 
 	var hp Parser
 	if hp, err = CreateParser(nmessage); err != nil {
-- 
2.43.0


From 6a3ef844d6b5891c3de019e07c532457e8ee50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 104/107] fix: read sips URIs as SIP URIs

SetSecure(true) and SetScheme("sips") print a sips: URI, which the parser
read as a generic URI, or refused where it has parameters or headers.
---
 sip/parser/SIPLexer.go  | 1 +
 sip/parser/URLParser.go | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/parser/SIPLexer.go b/sip/parser/SIPLexer.go
index 1487caa..7cb890b 100644
--- a/sip/parser/SIPLexer.go
+++ b/sip/parser/SIPLexer.go
@@ -141,6 +141,7 @@ func (this *SIPLexer) SelectLexer(lexerName string) {
 		} else if lexerName == "sip_urlLexer" {
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_TEL), TokenTypes_TEL)
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIP), TokenTypes_SIP)
+			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIPS), TokenTypes_SIP)
 		}
 	} /*else{
 		println("this.CurrentLexer() != nil");
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index a4a6e77..2ee3432 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -441,13 +441,14 @@ func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException erro
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	if _, ParseException = this.GetLexer().Match(TokenTypes_SIP); ParseException != nil {
+	var scheme *core.Token
+	if scheme, ParseException = this.GetLexer().Match(TokenTypes_SIP); ParseException != nil {
 		return nil, ParseException
 	}
 	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
 		return nil, ParseException
 	}
-	if ParseException = retval.SetScheme(core.SIPTransportNames_SIP); ParseException != nil {
+	if ParseException = retval.SetScheme(scheme.GetTokenValue()); ParseException != nil {
 		return nil, ParseException
 	}
 
-- 
2.43.0


From b44b92afc41edd1c897ed3a0a298554252c9db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:49 +0000
Subject: [PATCH 105/107] fix: read a parameter with nothing after the
 separator

A parameter without a value (;x) is printed as ;x= by the header lists, and
the parser refused that.
---
 core/CoreParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index bd771a9..b3ce4f6 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -57,7 +57,7 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 				return nil, ParseException
 			}
 			quoted = true
-		} else {
+		} else if err == nil && la != ';' && la != ',' && la != '>' && la != '?' && la != '\n' {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
 				return nil, ParseException
 			}
-- 
2.43.0


From 5c6c651a439ddafad0b41fc36297ea97a501e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 106/107] fix: read an empty Accept and an empty Allow

RFC 3261 allows both: no format, or no method, is accepted.
---
 sip/parser/AcceptParser.go | 3 +++
 sip/parser/AllowParser.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 425712a..21c6823 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -55,6 +55,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return acceptList, nil
+	}
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index c2e9772..fc26c80 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -48,6 +48,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return allowList, nil
+	}
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
-- 
2.43.0


From 0b9b2751164ed92c32763aed2d59e45836823d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:18 +0000
Subject: [PATCH 107/107] fix: headers set after the headers of a SIP URI were
 removed are joined with &

---
 sip/address/SipURIImpl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index d8173de..d7a0063 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -93,6 +93,7 @@ func (this *SipURIImpl) GetAuthority() *Authority {
  */
 func (this *SipURIImpl) ClearQheaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -395,6 +396,7 @@ func (this *SipURIImpl) RemoveHeader(name string) {
  */
 func (this *SipURIImpl) RemoveHeaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
-- 
2.43.0

