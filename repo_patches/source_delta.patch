From bec7e11b96e9c79a6517b6e4b30da4214c599590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:58 +0000
Subject: [PATCH 01/17] fix: do not accept a message whose save file could not
 be written

handleMessage() replaced a write error with the result of closing the
file and ignored the result of Sync(), so a full disk gave the client a
250 for a message that was truncated or lost.
---
 sinksmtp.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index c5a7c29..3007102 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -667,10 +667,20 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 		if err != nil {
 			warnf("error writing message file: %s\n", err)
 		}
-		_ = fp.Sync()
-		err = fp.Close()
-		if err != nil {
-			warnf("error closing message file: %s\n", err)
+		serr := fp.Sync()
+		if serr != nil {
+			warnf("error flushing message file: %s\n", serr)
+		}
+		cerr := fp.Close()
+		if cerr != nil {
+			warnf("error closing message file: %s\n", cerr)
+		}
+		// The message is only saved if all of it worked.
+		if err == nil {
+			err = serr
+		}
+		if err == nil {
+			err = cerr
 		}
 	} else if !os.IsExist(err) {
 		warnf("error writing message file: %v\n", err)
-- 
2.43.0


From 9fc1d476487df4b6be4c0f518002125ac1377efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:58 +0000
Subject: [PATCH 02/17] fix: never leave a partial message file under its final
 name

A write error or a crash while saving left a damaged file under the hash
name. When the same message was sent again (or was being received in
another session at the same moment), the existing file was taken for the
saved message and the client was told 250. Write to a temporary file and
link it to its final name once it is complete and flushed.
---
 sinksmtp.go | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 3007102..0f49587 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -9,6 +9,7 @@ import (
 	"crypto/sha1"
 	"crypto/tls"
 	"crypto/x509"
+	"errors"
 	"expvar"
 	"flag"
 	"fmt"
@@ -22,6 +23,7 @@ import (
 	"sort"
 	"strings"
 	"sync"
+	"syscall"
 	"time"
 
 	"github.com/siebenmann/smtpd"
@@ -659,9 +661,12 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 	}
 
 	tgt := trans.savedir + "/" + hash
-	// O_CREATE|O_EXCL will fail if the file already exists, which
-	// is okay with us.
-	fp, err := os.OpenFile(tgt, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+	// We write the message to a temporary file and only give it its
+	// final name once all of it is on disk. Otherwise an error or a
+	// crash could leave a partial message under the final name, where
+	// it would be taken for the saved message from then on.
+	tmp := trans.savedir + "/." + hash + "." + strings.Replace(prefix, "/", "-", -1)
+	fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
 	if err == nil {
 		_, err = fp.Write(m)
 		if err != nil {
@@ -682,14 +687,46 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 		if err == nil {
 			err = cerr
 		}
-	} else if !os.IsExist(err) {
-		warnf("error writing message file: %v\n", err)
+		if err == nil {
+			err = linkMessage(tmp, tgt, trans.savedir)
+		}
+		_ = os.Remove(tmp)
 	} else {
-		err = nil
+		warnf("error writing message file: %v\n", err)
 	}
 	return hash, err
 }
 
+// Give a completely written message file its final name and make sure
+// that the name is on disk. This will fail if the file already exists,
+// which is okay with us.
+func linkMessage(tmp, tgt, dir string) error {
+	err := os.Link(tmp, tgt)
+	if err != nil && !os.IsExist(err) {
+		warnf("error writing message file: %v\n", err)
+		return err
+	}
+	fp, err := os.Open(dir)
+	if err != nil {
+		// We may not have read permission on the directory.
+		if os.IsPermission(err) {
+			return nil
+		}
+		warnf("error flushing message directory: %v\n", err)
+		return err
+	}
+	defer fp.Close()
+	err = fp.Sync()
+	// Not all filesystems support this.
+	if errors.Is(err, syscall.EINVAL) {
+		return nil
+	}
+	if err != nil {
+		warnf("error flushing message directory: %v\n", err)
+	}
+	return err
+}
+
 // Given a SBL hit on a remote IP, try to give us what SBL records were hit.
 func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
-- 
2.43.0


From 834ccc85b523507b04d5b512e833d4b1f3c6a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 03/17] fix: don't crash on a rule note when there is no SMTP
 log

decider() used the session's logger without checking that there is one;
without -smtplog, or in a stalled session, there is none.
---
 sinksmtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 0f49587..4eb9bac 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -834,7 +834,7 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
 	if note := c.withprops["note"]; note != "" {
-		c.trans.log.Write([]byte(fmt.Sprintf("! rule note: %s\n", note)))
+		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
-- 
2.43.0


From df8f11134261e2732909cbe1773075c22fddf368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 04/17] fix: don't crash matching a blank EHLO name or a blank
 pattern

matchHost() indexed the last character of both of its arguments. With
-nostdrules or a rule that runs before the standard ones, a client can
send a blank EHLO; 'helo ""' gives a blank pattern.
---
 rules.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rules.go b/rules.go
index e3f9f72..c87efb6 100644
--- a/rules.go
+++ b/rules.go
@@ -348,6 +348,10 @@ func matchAddress(addr string, pat string) bool {
 // pattern 'a.b', ie we strip off the trailing dot from the hostname.
 // This stripping is suppressed if the pattern ends in a '.' itself.
 func matchHost(host string, pat string) bool {
+	// An EHLO/HELO may have no name at all.
+	if host == "" || pat == "" {
+		return false
+	}
 	host = strings.ToLower(host)
 	if host[len(host)-1] == '.' && pat[len(pat)-1] != '.' {
 		host = host[:len(host)-1]
-- 
2.43.0


From 9c86f449bdf8c2549dc5cd522ec11c75591ae60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 05/17] fix: don't crash on an empty quoted match argument

A rule such as 'reject from ""' parses, but getMatchList() then indexed
the first character of the argument.
---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index c87efb6..0275652 100644
--- a/rules.go
+++ b/rules.go
@@ -132,7 +132,7 @@ func newContext(trans *smtpTransaction, rules []*Rule) *Context {
 func (c *Context) getMatchList(a string) []string {
 	var fname string
 	switch {
-	case a[0] == '/' || strings.HasPrefix(a, "./"):
+	case strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./"):
 		fname = a
 	case strings.HasPrefix(a, "file:"):
 		fname = a[len("file:"):]
-- 
2.43.0


From 5dc627034e7331831d51588cd9af9868f9ec0acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 06/17] fix: don't crash on a SBL hit for an IPv6 client

A 'dbl ... sbl.spamhaus.org' rule can hit on a name, in which case the
remote IP does not have to be an IPv4 one.
---
 sinksmtp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index 4eb9bac..7776adb 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -732,6 +732,10 @@ func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
 	// since we know this hit, we can omit a lot of checks.
 	s := strings.Split(t.rip, ".")
+	if len(s) != 4 {
+		// 'dbl' can hit for IPv6 clients.
+		return sbls
+	}
 	ln := fmt.Sprintf("%s.%s.%s.%s.sbl.spamhaus.org.", s[3], s[2], s[1], s[0])
 	txts, err := net.LookupTXT(ln)
 	if err != nil {
-- 
2.43.0


From 27c4d760e8ad6b18ddd2bc4b6d3611186097d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 07/17] fix: don't let connections overwrite each other's rules

accumRules() appended to the shared base rules; when that slice had
spare capacity, all connections wrote their rules to the same place and
a connection could end up running under another one's rules.
---
 sinksmtp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 7776adb..5a67ebc 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -157,7 +157,10 @@ func accumRules(baserules []*Rule, fname string) ([]*Rule, error) {
 		return baserules, nil
 	}
 	rules, err := loadRules(fname)
-	return append(baserules, rules...), err
+	// baserules is shared by all connections, so we must not append
+	// to it in place.
+	n := len(baserules)
+	return append(baserules[:n:n], rules...), err
 }
 
 // Accumulate the set of rules for this connection from our base rules
-- 
2.43.0


From 0a6275d99113ecfe1ab71b5eaea328dd3f908c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 08/17] fix: don't ignore the last line of a list without a
 newline

readList() and readConnFile() dropped a final line that is not
newline-terminated, so the last address of such a list did not count.
---
 conncfg.go  | 5 +++--
 sinksmtp.go | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 84bbecb..c43c948 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -60,10 +60,11 @@ func readConnFile(rdr *bufio.Reader) (*destMap, error) {
 		var host, cert, key string
 
 		line, err := rdr.ReadString('\n')
-		if err == io.EOF {
+		// The last line may not have a newline.
+		if err == io.EOF && line == "" {
 			break
 		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
 		lnum++
diff --git a/sinksmtp.go b/sinksmtp.go
index 5a67ebc..bff0b4f 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -92,10 +92,13 @@ func readList(rdr *bufio.Reader) ([]string, error) {
 	for {
 		line, err := rdr.ReadString('\n')
 		if err != nil {
-			if err == io.EOF {
+			// The last line may not have a newline.
+			if err == io.EOF && line == "" {
 				return a, nil
 			}
-			return a, err
+			if err != io.EOF {
+				return a, err
+			}
 		}
 		line = strings.TrimSpace(line)
 		if line == "" || line[0] == '#' {
-- 
2.43.0


From 2c485f48f2352614626b23728a1ea51f57518401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 09/17] fix: make-yakker must apply regardless of what follows

The properties set by rules are cleared for every command, so
make-yakker only worked if the rule matched for the session's very last
command. The documentation says that it happens regardless of what
additional progress is made in the session.
---
 sinksmtp.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index bff0b4f..0aca24d 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -418,7 +418,8 @@ type smtpTransaction struct {
 	bodyhash string    // canonical hash of the message body (no headers)
 	when     time.Time // when the email message data was received.
 
-	savedir string // directory to save message to
+	savedir    string // directory to save message to
+	makeyakker bool   // a rule set make-yakker at some point
 
 	// Reflects the current state, so tlson false can convert to
 	// tlson true over time. cipher is valid only if tlson is true.
@@ -840,6 +841,11 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	if sd := c.withprops["savedir"]; sd != "" {
 		c.trans.savedir = sd
 	}
+	// make-yakker is sticky too, as it applies regardless of what else
+	// happens in the session.
+	if _, ok := c.withprops["make-yakker"]; ok {
+		c.trans.makeyakker = true
+	}
 	// rule notes are deliberately logged every time they hit.
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
@@ -1244,9 +1250,8 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	// Once people are yakkers we don't count their continued failure
 	// to do anything against them.
 	// And we have to have good rules to start with because duh.
-	_, forceyakker := c.withprops["make-yakker"]
 	switch {
-	case forceyakker:
+	case trans.makeyakker:
 		// It's a lot simpler if forced yakking takes priority
 		// over everything else.
 		cnt = yakkers.Set(trans.rip, yakTimeout, yakCount)
-- 
2.43.0


From d018396f172dcb17cd532d58550f5fdcba4f4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 10/17] fix: 'bad' addresses include quoted ones but not route
 addresses

This is what the documentation says: bad is noat, quoted, unqualified
and garbage.
---
 rnodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rnodes.go b/rnodes.go
index bd0c865..3d893f7 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -97,7 +97,7 @@ const (
 	oFrom
 
 	// merged bitmaps
-	oBad = oUnqualified | oRoute | oNoat | oGarbage
+	oBad = oUnqualified | oQuoted | oNoat | oGarbage
 	oIp  = oBareip | oProperip
 	oAny = oHost | oEhlo | oFrom
 )
-- 
2.43.0


From 227160e623a800b9f12e84a87ee76bc81a00a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 11/17] fix: handle IPv6 addresses with a zone

net.ParseIP() gives nil for these and two nil IPs compare equal, so a
link-local client matched list entries that are not IP addresses and was
never matched by its own address. Its host names never verified.
---
 conncfg.go |  4 ++--
 rdns.go    | 12 +++++++++++-
 rules.go   |  4 ++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index c43c948..f3fa11a 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -31,13 +31,13 @@ func (d *destMap) find(nc net.Conn) *perDest {
 	la := nc.LocalAddr()
 	lip, _, _ := net.SplitHostPort(la.String())
 	las := la.String()
-	ip := net.ParseIP(lip)
+	ip := parseIPZone(lip)
 
 	for _, de := range *d {
 		if de.local == "*" || de.local == las {
 			return de
 		}
-		if ip.Equal(net.ParseIP(de.local)) {
+		if ip != nil && ip.Equal(net.ParseIP(de.local)) {
 			return de
 		}
 		_, ipn, err := net.ParseCIDR(de.local)
diff --git a/rdns.go b/rdns.go
index dc83524..6e51568 100644
--- a/rdns.go
+++ b/rdns.go
@@ -6,8 +6,18 @@ package main
 import (
 	"net"
 	"sort"
+	"strings"
 )
 
+// parse an IP address that may have an IPv6 zone, which net.ParseIP()
+// doesn't accept.
+func parseIPZone(s string) net.IP {
+	if idx := strings.IndexByte(s, '%'); idx != -1 {
+		s = s[:idx]
+	}
+	return net.ParseIP(s)
+}
+
 type rDNSResults struct {
 	verified  []string // good, verified reverse DNS names
 	nofwd     []string // rDNS name without forward
@@ -27,7 +37,7 @@ func LookupAddrVerified(ip string) (r *rDNSResults, err error) {
 	if err != nil {
 		return r, err
 	}
-	eip := net.ParseIP(ip)
+	eip := parseIPZone(ip)
 	for _, name := range names {
 		addrs, err := net.LookupIP(name)
 		if err != nil {
diff --git a/rules.go b/rules.go
index 0275652..ab49f76 100644
--- a/rules.go
+++ b/rules.go
@@ -378,9 +378,9 @@ func matchIp(rip string, cidr string) bool {
 	// example filling in leading zeroes in an IPv4 address's octets
 	// (yes people do this sometimes). ParseIP() has the side effect
 	// of canonicalizing all of that for us.
-	ip := net.ParseIP(rip)
+	ip := parseIPZone(rip)
 	ip2 := net.ParseIP(cidr)
-	if ip.Equal(ip2) {
+	if ip != nil && ip.Equal(ip2) {
 		return true
 	}
 	_, ipn, err := net.ParseCIDR(cidr)
-- 
2.43.0


From 6050bff38a5d612b7c8892a473d3d6cd4edb1589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:58 +0000
Subject: [PATCH 12/17] fix: never write to a leftover temporary message file

If removing the temporary name of a saved message failed, the next
message with the same hash in the same session truncated and rewrote
the message that had already been saved.
---
 sinksmtp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 0aca24d..d1e78d6 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -673,7 +673,10 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 	// crash could leave a partial message under the final name, where
 	// it would be taken for the saved message from then on.
 	tmp := trans.savedir + "/." + hash + "." + strings.Replace(prefix, "/", "-", -1)
-	fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+	// A temporary file that was left behind may be another name of a saved
+	// message, so we must not write to it.
+	_ = os.Remove(tmp)
+	fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	if err == nil {
 		_, err = fp.Write(m)
 		if err != nil {
-- 
2.43.0


From b8185af7697de03f0c18c146a437a5e8edc944e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 13/17] fix: stop at deeply nested (or endless) includes of
 rules files

A rules file that includes itself, directly or not, was loaded over and
over until we ran out of file descriptors, and the error message grew
with every level. With today's descriptor limits this takes all
descriptors away from other connections and never gets done.
---
 rparse.go   | 16 ++++++++++++++--
 sinksmtp.go |  6 +++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/rparse.go b/rparse.go
index 17c626c..23e7cc9 100644
--- a/rparse.go
+++ b/rparse.go
@@ -54,8 +54,13 @@ type parser struct {
 	l       *lexer
 	curtok  item
 	currule *Rule
+	depth   int // how many includes deep we are
 }
 
+// maxInclude is how deeply rules files can include each other. Its real
+// purpose is to catch files that (indirectly) include themselves.
+const maxInclude = 20
+
 // consume the current token and advance to the next one
 func (p *parser) consume() {
 	// EOF is sticky because we pretend that it is an end of line
@@ -658,7 +663,10 @@ func (p *parser) pInclude() ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rules, err := loadRules(fname)
+	if p.depth >= maxInclude {
+		return nil, p.lineError(fmt.Sprintf("includes are nested too deeply including '%s'", fname))
+	}
+	rules, err := loadRulesAt(fname, p.depth+1)
 	if err != nil {
 		return rules, p.lineError(fmt.Sprintf("while including '%s': %s", fname, err))
 	}
@@ -697,8 +705,12 @@ func (p *parser) pFile() (rules []*Rule, err error) {
 // Parse an input string into a set of rules and a possible error.
 // If there is an error, you must ignore the rules.
 func Parse(input string) (rules []*Rule, err error) {
+	return parseAt(input, 0)
+}
+
+func parseAt(input string, depth int) (rules []*Rule, err error) {
 	l := lex(input)
-	p := &parser{l: l}
+	p := &parser{l: l, depth: depth}
 	// we must prime the current token with the first token in the
 	// file.
 	p.curtok = l.nextItem()
diff --git a/sinksmtp.go b/sinksmtp.go
index d1e78d6..f42c1d3 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -138,6 +138,10 @@ func loadList(fname string) []string {
 // ----
 // Load a|the rule file. We assume filename is non-empty.
 func loadRules(fname string) ([]*Rule, error) {
+	return loadRulesAt(fname, 0)
+}
+
+func loadRulesAt(fname string, depth int) ([]*Rule, error) {
 	fp, err := os.Open(fname)
 	if err != nil {
 		return nil, err
@@ -147,7 +151,7 @@ func loadRules(fname string) ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rl, err := Parse(string(b))
+	rl, err := parseAt(string(b), depth)
 	if err != nil {
 		return nil, fmt.Errorf("rules parsing error %v", err)
 	}
-- 
2.43.0


From 44068e21cfc0ac140ac0a33265fd187cb563b199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:14 +0000
Subject: [PATCH 14/17] fix: use the well-formed reverse DNS names of a client
 that also has malformed ones

net.LookupAddr() returns the well-formed names along with an error in
this case, and we treated the client as having no reverse DNS at all.
---
 rdns.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdns.go b/rdns.go
index 6e51568..0f4a912 100644
--- a/rdns.go
+++ b/rdns.go
@@ -34,7 +34,9 @@ func LookupAddrVerified(ip string) (r *rDNSResults, err error) {
 	}
 	names, err := net.LookupAddr(ip)
 	sort.Strings(names)
-	if err != nil {
+	// If only some of the names are malformed, LookupAddr() returns the
+	// others along with an error.
+	if err != nil && len(names) == 0 {
 		return r, err
 	}
 	eip := parseIPZone(ip)
-- 
2.43.0


From 343c9e82d1215d0ce3a3415d96ff7585fdeade8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:14 +0000
Subject: [PATCH 15/17] fix: use the well-formed MX records of a domain that
 also has malformed ones

net.LookupMX() returns the well-formed MX records along with an error if
some of them are malformed (for example an MX to an IP address). We
ignored all MX records in this case, null MXes included.
---
 mxresolve.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mxresolve.go b/mxresolve.go
index 1e36faf..e971113 100644
--- a/mxresolve.go
+++ b/mxresolve.go
@@ -118,8 +118,10 @@ func ValidDomain(domain string) (dnsResult, error) {
 	if err != nil && isTemporary(err) {
 		return dnsTempfail, fmt.Errorf("MX tempfail: %s", err)
 	}
-	// No MX entry? Fall back to A record lookup.
-	if err != nil {
+	// No MX entry? Fall back to A record lookup. (If only some of the
+	// MX names are malformed, LookupMX() returns the others along with
+	// an error.)
+	if err != nil && len(mxs) == 0 {
 		return checkIP(domain + ".")
 	}
 
-- 
2.43.0


From 0523b222f61626c9531ac6396babce07b42658e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:32 +0000
Subject: [PATCH 16/17] fix: don't spin when accepting connections keeps
 failing

listener() retried Accept() at once on any error. Accept() errors such as
running out of file descriptors persist, so it burned a CPU for as long as
that lasted. Pause for a bit instead.
---
 sinksmtp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index f42c1d3..11fb024 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -1310,6 +1310,11 @@ func listener(conn net.Listener, listenc chan net.Conn) {
 		nc, err := conn.Accept()
 		if err == nil {
 			listenc <- nc
+		} else {
+			// Some errors will go on for some time, for example
+			// if we've run out of file descriptors. Don't burn
+			// CPU until then.
+			time.Sleep(time.Second / 10)
 		}
 	}
 }
-- 
2.43.0


From c1ff5f6e6e5adf9390f71ff6d4a28120f3dfbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:04 +0000
Subject: [PATCH 17/17] fix: dbl host cuts off the end of names without a
 trailing dot

The names that net.LookupAddr() returns end in a dot unless they come from
/etc/hosts and have no dots in them, such as 'localhost'. The last letter of
those was removed before the blocklist lookup.
---
 rnodes.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rnodes.go b/rnodes.go
index 3d893f7..6c78800 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -451,15 +451,16 @@ func (d *DblNode) Eval(c *Context) (r Result) {
 		check[c.heloname] = struct{}{}
 	}
 	if (d.src & oHost) == oHost {
-		// DNS names have a trailing '.', which we must remove.
+		// DNS names have a trailing '.', which we must remove. Names
+		// without dots from /etc/hosts don't.
 		for _, s := range c.trans.rdns.verified {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.nofwd {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 		for _, s := range c.trans.rdns.inconsist {
-			check[s[:len(s)-1]] = struct{}{}
+			check[strings.TrimSuffix(s, ".")] = struct{}{}
 		}
 	}
 	if (d.src&oFrom) == oFrom && c.from != "" {
-- 
2.43.0

