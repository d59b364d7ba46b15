From 271c83dc529d69d942e8d53785466e68acfe81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:07 +0000
Subject: [PATCH 01/52] fix: prepare statements again after reconnect

---
 client/client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/client.go b/client/client.go
index 5cfe61e..cc279cc 100644
--- a/client/client.go
+++ b/client/client.go
@@ -115,6 +115,14 @@ func (c *Client) Connect(ctx context.Context, cerr error, stmtNo int, trxActive
 	}
 
 	if c.conn != nil {
+		// Prepared statements belong to the connection: close and forget them, too,
+		// else they're not prepared on the new connection (below)
+		for i := range c.ps {
+			if c.ps[i] != nil {
+				c.ps[i].Close()
+				c.ps[i] = nil
+			}
+		}
 		c.conn.Close()
 		c.conn = nil
 		time.Sleep(ConnectRetryWait)
-- 
2.43.0


From 22494628a231eafe3ce64eb7e1a3bf18d9a36a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 02/52] fix: mark trx boundary before idle so idle can be the
 first statement of a trx

---
 client/client.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index cc279cc..e6d595e 100644
--- a/client/client.go
+++ b/client/client.go
@@ -246,12 +246,6 @@ ITER:
 		trxActive = false
 
 		for i := range c.Statements {
-			// Idle time
-			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
-				continue
-			}
-
 			// Is this query the start of a new (finch) trx file? This is not
 			// a MySQL trx (either BEGIN or implicit). It marks finch trx scope
 			// "trx" is a trx file in the config assigned to this client.
@@ -263,6 +257,12 @@ ITER:
 				trxActive = false
 			}
 
+			// Idle time
+			if c.Statements[i].Idle != 0 {
+				time.Sleep(c.Statements[i].Idle)
+				continue
+			}
+
 			// If BEGIN, check TPS rate limiter
 			if c.TPS != nil && c.Statements[i].Begin {
 				<-c.TPS
-- 
2.43.0


From b8570508d8f8ccecc208c897e9a90aba32e4cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 03/52] fix: trx is active until its last statement succeeds,
 so its error is rolled back

---
 client/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index e6d595e..87d24d9 100644
--- a/client/client.go
+++ b/client/client.go
@@ -253,8 +253,6 @@ ITER:
 				rc[data.TRX] += 1
 				trxNo += 1
 				trxActive = true
-			} else if c.Data[i].TrxBoundary&trx.END != 0 {
-				trxActive = false
 			}
 
 			// Idle time
@@ -350,6 +348,9 @@ ITER:
 					c.Data[i].InsertId.Scan(id)
 				}
 			} // execute
+			if c.Data[i].TrxBoundary&trx.END != 0 {
+				trxActive = false // only after last statement succeeds, else handling its error needs ROLLBACK
+			}
 			continue // next query
 
 		ERROR:
-- 
2.43.0


From 15c891d87edb662e935c796bf77d14115856251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:33 +0000
Subject: [PATCH 04/52] fix: handle error reading rows of a result set

---
 client/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index 87d24d9..5fa3fd6 100644
--- a/client/client.go
+++ b/client/client.go
@@ -307,8 +307,14 @@ ITER:
 							goto ERROR
 						}
 					}
+					if err = rows.Err(); err != nil {
+						rows.Close()
+						goto ERROR
+					}
+				}
+				if err = rows.Close(); err != nil {
+					goto ERROR
 				}
-				rows.Close()
 			} else {
 				//
 				// Write or query without result set (e.g. BEGIN, SET, etc.)
-- 
2.43.0


From c9ebcba78dfd96c07d9da9b316d3060537eead81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:34 +0000
Subject: [PATCH 05/52] fix: don't wait for rate limit or idle time after
 runtime elapsed

---
 client/client.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 5fa3fd6..9b5bd42 100644
--- a/client/client.go
+++ b/client/client.go
@@ -257,18 +257,33 @@ ITER:
 
 			// Idle time
 			if c.Statements[i].Idle != 0 {
-				time.Sleep(c.Statements[i].Idle)
+				select {
+				case <-time.After(c.Statements[i].Idle):
+				case <-ctxExec.Done():
+					err = ctxExec.Err()
+					return // runtime elapsed
+				}
 				continue
 			}
 
 			// If BEGIN, check TPS rate limiter
 			if c.TPS != nil && c.Statements[i].Begin {
-				<-c.TPS
+				select {
+				case <-c.TPS:
+				case <-ctxExec.Done():
+					err = ctxExec.Err()
+					return // runtime elapsed
+				}
 			}
 
 			// If query, check QPS
 			if c.QPS != nil {
-				<-c.QPS
+				select {
+				case <-c.QPS:
+				case <-ctxExec.Done():
+					err = ctxExec.Err()
+					return // runtime elapsed
+				}
 			}
 
 			// Generate new data values for this query. A single data generator
-- 
2.43.0


From f98f6182c3d6a18947c3e0833c8a0b9f2fde6730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 06/52] fix: zero rows limit is no limit, not a typed nil limit
 that panics

---
 limit/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index 0d7d800..b546672 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -73,9 +73,9 @@ type Rows struct {
 
 var _ Data = &Rows{}
 
-func NewRows(max, offset int64) *Rows {
+func NewRows(max, offset int64) Data {
 	if max == 0 {
-		return nil
+		return nil // interface, not *Rows: a nil *Rows in a Data is not nil
 	}
 	lm := &Rows{
 		max:   max,
-- 
2.43.0


From d1f97034f78296c85ca6f6fa426d5a378fc62df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:14 +0000
Subject: [PATCH 07/52] fix: database size limit reads table names before
 closing rows and sums all tables

---
 limit/data.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/limit/data.go b/limit/data.go
index b546672..2b103ae 100644
--- a/limit/data.go
+++ b/limit/data.go
@@ -181,7 +181,7 @@ func (lm *Size) More(conn *sql.Conn) bool {
 
 	// Set queries on first call
 	if lm.query == "" {
-		lm.query = "SELECT COALESCE(data_length + index_length, 0) AS bytes FROM information_schema.TABLES WHERE "
+		lm.query = "SELECT COALESCE(SUM(data_length + index_length), 0) AS bytes FROM information_schema.TABLES WHERE "
 		if lm.db != "" {
 			log.Printf("Database size limit: %s %s (progress report every %d%%)", lm.db, lm.maxStr, lm.r)
 			lm.query += "table_schema='" + lm.db + "'"
@@ -192,18 +192,24 @@ func (lm *Size) More(conn *sql.Conn) bool {
 				log.Printf("Error running SHOW FULL TABLES: %s", err)
 				return false
 			}
-			rows.Close()
+			defer rows.Close()
 			for rows.Next() {
 				var name, base string
 				err = rows.Scan(&name, &base)
 				if err != nil {
-					break
+					log.Printf("Error reading SHOW FULL TABLES: %s", err)
+					return false
 				}
 				if base != "BASE TABLE" {
 					continue
 				}
 				tbls = append(tbls, name)
 			}
+			if err := rows.Err(); err != nil {
+				log.Printf("Error reading SHOW FULL TABLES: %s", err)
+				return false
+			}
+			rows.Close()
 			lm.analyze = "ANALYZE TABLE " + strings.Join(tbls, ", ")
 		} else {
 			log.Printf("Table size limit: %s %s (progress report every %d%%)", lm.tbl, lm.maxStr, lm.r)
-- 
2.43.0


From 4eb42944c84372b5a5aa06a6c1d5d6000f149577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:17 +0000
Subject: [PATCH 08/52] fix: multi client data scopes key values on client in
 all client groups

---
 data/scope.go | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 4969e47..f1f339b 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -145,16 +145,24 @@ func (s *Scope) Reset() {
 // care which--to handle either scoped value generator or explicit calls like
 // @d().
 type ScopedGenerator struct {
-	id           Id                     // identify this copy of the real Generator for debugging
-	g            Generator              // real Generator:
-	sno          byte                   //   scope number in RunCount (if singleClient == true)
-	last         RunCount               //   last time value was generated
-	vals         []interface{}          //   last value
-	singleClient bool                   // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
-	oneTime      bool                   // One time scopes: STAGE and GLOBAL
-	cgMux        *sync.RWMutex          // Multi client: client-group, exec-group, workload
-	cgIter       map[uint]uint          //   last client iter
-	cgVals       map[uint][]interface{} //   last client value
+	id           Id                          // identify this copy of the real Generator for debugging
+	g            Generator                   // real Generator:
+	sno          byte                        //   scope number in RunCount (if singleClient == true)
+	last         RunCount                    //   last time value was generated
+	vals         []interface{}               //   last value
+	singleClient bool                        // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
+	oneTime      bool                        // One time scopes: STAGE and GLOBAL
+	cgMux        *sync.RWMutex               // Multi client: client-group, exec-group, workload
+	cgIter       map[clientKey]uint          //   last client iter
+	cgVals       map[clientKey][]interface{} //   last client value
+}
+
+// clientKey identifies a client in all client groups because CLIENT alone is
+// its number in its client group.
+type clientKey [3]uint
+
+func newClientKey(cnt RunCount) clientKey {
+	return clientKey{cnt[EXEC_GROUP], cnt[CLIENT_GROUP], cnt[CLIENT]}
 }
 
 var _ Generator = &ScopedGenerator{}
@@ -175,8 +183,8 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_WORKLOAD) {
 		// Multi client scopes: iter = each <client, iter>
 		s.cgMux = &sync.RWMutex{}
-		s.cgIter = map[uint]uint{}
-		s.cgVals = map[uint][]interface{}{}
+		s.cgIter = map[clientKey]uint{}
+		s.cgVals = map[clientKey][]interface{}{}
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
 		s.oneTime = true
@@ -202,7 +210,7 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		Don't debug or call anything slow/superfluous.
 	*/
 	if s.cgMux != nil { // multi client
-		clientNo := cnt[CLIENT]
+		clientNo := newClientKey(cnt)
 		v := s.g.Values(cnt)
 		s.cgMux.Lock()
 		s.cgIter[clientNo] = cnt[ITER]
@@ -233,7 +241,7 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// Multi client scopes: CLIENT_GROUP, EXEC_GROUP, WORKLOAD
 	if s.cgMux != nil {
-		clientNo := cnt[CLIENT]
+		clientNo := newClientKey(cnt)
 		s.cgMux.RLock()
 		prevIter, ok := s.cgIter[clientNo]
 		if !ok || cnt[ITER] > prevIter {
-- 
2.43.0


From dab42f7c107c1c7d6c5d27866b25a16bcbb6601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:18 +0000
Subject: [PATCH 09/52] fix: generate multi client values under lock because
 generators are not thread safe

---
 data/scope.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index f1f339b..225c479 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -195,10 +195,17 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	return s
 }
 
-func (s *ScopedGenerator) Name() string               { return s.g.Name() }
-func (s *ScopedGenerator) Id() Id                     { return s.id }
-func (s *ScopedGenerator) Format() (uint, string)     { return s.g.Format() }
-func (s *ScopedGenerator) Scan(any interface{}) error { return s.g.Scan(any) }
+func (s *ScopedGenerator) Name() string           { return s.g.Name() }
+func (s *ScopedGenerator) Id() Id                 { return s.id }
+func (s *ScopedGenerator) Format() (uint, string) { return s.g.Format() }
+
+func (s *ScopedGenerator) Scan(any interface{}) error {
+	if s.cgMux != nil { // multi client
+		s.cgMux.Lock()
+		defer s.cgMux.Unlock()
+	}
+	return s.g.Scan(any)
+}
 
 func (s *ScopedGenerator) Copy() Generator {
 	panic("cannot copy ScopedGenerator") // only real Generator is copied
@@ -211,8 +218,8 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 	*/
 	if s.cgMux != nil { // multi client
 		clientNo := newClientKey(cnt)
+		s.cgMux.Lock() // guards s.g, too: generators are not safe for concurrent use
 		v := s.g.Values(cnt)
-		s.cgMux.Lock()
 		s.cgIter[clientNo] = cnt[ITER]
 		s.cgVals[clientNo] = v
 		s.cgMux.Unlock()
-- 
2.43.0


From cb0fea661f329e9c1d9c6816149c7b259ca4abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 10/52] fix: stage and global scoped data keys generate their
 one value

---
 data/scope.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 225c479..26bcd7f 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -152,6 +152,7 @@ type ScopedGenerator struct {
 	vals         []interface{}               //   last value
 	singleClient bool                        // Single client scopes (typical): STATEMENT, TRX, ITER, CILENT
 	oneTime      bool                        // One time scopes: STAGE and GLOBAL
+	oneTimeMux   *sync.Mutex                 // guards g and vals if oneTime
 	cgMux        *sync.RWMutex               // Multi client: client-group, exec-group, workload
 	cgIter       map[clientKey]uint          //   last client iter
 	cgVals       map[clientKey][]interface{} //   last client value
@@ -188,6 +189,7 @@ func NewScopedGenerator(id Id, g Generator) *ScopedGenerator {
 	} else if n <= finch.RunLevelNumber(finch.SCOPE_GLOBAL) {
 		// One time scopes
 		s.oneTime = true
+		s.oneTimeMux = &sync.Mutex{}
 	} else {
 		panic("invalid scope: " + id.Scope)
 	}
@@ -204,6 +206,10 @@ func (s *ScopedGenerator) Scan(any interface{}) error {
 		s.cgMux.Lock()
 		defer s.cgMux.Unlock()
 	}
+	if s.oneTime {
+		s.oneTimeMux.Lock()
+		defer s.oneTimeMux.Unlock()
+	}
 	return s.g.Scan(any)
 }
 
@@ -225,6 +231,12 @@ func (s *ScopedGenerator) Call(cnt RunCount) []interface{} {
 		s.cgMux.Unlock()
 		return v
 	}
+	if s.oneTime {
+		s.oneTimeMux.Lock()
+		defer s.oneTimeMux.Unlock()
+		s.vals = s.g.Values(cnt)
+		return s.vals
+	}
 	s.last[s.sno] = cnt[s.sno] // save last run counter value
 	s.vals = s.g.Values(cnt)   // generate new data value
 	return s.vals
@@ -262,9 +274,10 @@ func (s *ScopedGenerator) Values(cnt RunCount) []interface{} {
 
 	// One time scopes: STAGE and GLOBAL
 	if s.oneTime {
-		// @todo guard with mux
-		if s.vals != nil {
-			return s.Call(cnt)
+		s.oneTimeMux.Lock()
+		defer s.oneTimeMux.Unlock()
+		if s.vals == nil {
+			s.vals = s.g.Values(cnt) // first and only value
 		}
 		return s.vals
 	}
-- 
2.43.0


From 18fb98cb94df966c78f622ab1cb952b9e88e4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 11/52] fix: copy global scoped data key the first time it is
 seen

---
 data/scope.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/scope.go b/data/scope.go
index 26bcd7f..8f0257f 100644
--- a/data/scope.go
+++ b/data/scope.go
@@ -106,8 +106,8 @@ func (s *Scope) Copy(keyName string, rl finch.RunLevel) *ScopedGenerator {
 		finch.Debug("%s: defaults to %s scope", k.Name, k.Scope)
 	}
 
-	prev := s.CopiedAt[keyName] // last time we saw this @d
-	if rl.GreaterThan(prev, k.Scope) {
+	prev, ok := s.CopiedAt[keyName] // last time we saw this @d
+	if !ok || rl.GreaterThan(prev, k.Scope) {
 		s.CopyCount[keyName] += 1
 		id := Id{
 			RunLevel: rl,
-- 
2.43.0


From ba84884beb322e7bb9315aacf446addaf7524fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 12/52] fix: int generates [min, max] and rejects invalid range
 instead of panicking

---
 data/integer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 66f9b6f..2929391 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -44,6 +44,10 @@ func NewInt(params map[string]string) (*Int, error) {
 		return nil, err
 	}
 
+	if g.max-g.min+1 <= 0 { // also true on overflow
+		return nil, fmt.Errorf("invalid int: max - min must be >= 0")
+	}
+
 	switch strings.ToLower(params["dist"]) {
 	case "normal":
 		g.dist = dist_normal
@@ -96,11 +100,7 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		}
 		return []interface{}{v}
 	default: // uniform
-		v := rand.Int63n(g.max)
-		if v < g.min {
-			v = g.min
-		}
-		return []interface{}{v}
+		return []interface{}{g.min + rand.Int63n(g.max-g.min+1)} // [min, max]
 	}
 }
 
-- 
2.43.0


From be17c840784ff7d0ab59a705128e36fc3ccb64e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 13/52] fix: int-gaps, int-range, and int-range-seq reject
 params that panic or loop on one value

---
 data/integer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/data/integer.go b/data/integer.go
index 2929391..c297a26 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -139,6 +139,9 @@ func NewIntGaps(params map[string]string) (*IntGaps, error) {
 		return nil, fmt.Errorf("invalid int-gaps p: %d, must be between 1 to 100 (inclusive)", p)
 	}
 	input_max := int64(float64(size) * (float64(p) / 100.0))
+	if input_max < 2 {
+		return nil, fmt.Errorf("invalid int-gaps: p=%d percent of %d values is less than 2 values", p, size)
+	}
 
 	g := &IntGaps{
 		params:       params,
@@ -193,6 +196,9 @@ func NewIntRange(params map[string]string) (*IntRange, error) {
 	if err := int64From(params, "max", &g.max, false); err != nil {
 		return nil, err
 	}
+	if g.size < 1 {
+		return nil, fmt.Errorf("invalid int range: size %d must be >= 1", g.size)
+	}
 	if g.min >= g.max {
 		return nil, fmt.Errorf("invalid int range: min %d >= max %d", g.min, g.max)
 	}
@@ -256,6 +262,9 @@ func NewIntRangeSeq(params map[string]string) (*IntRangeSeq, error) {
 	if err := int64From(params, "end", &g.end, false); err != nil {
 		return nil, err
 	}
+	if g.size < 1 {
+		return nil, fmt.Errorf("invalid int-range-seq: size %d must be >= 1", g.size)
+	}
 	if g.begin > g.end {
 		return nil, fmt.Errorf("invalid int-range-seq: begin (%d) > end (%d)", g.begin, g.end)
 	}
-- 
2.43.0


From 8c26a8279c32fc14ff46d13b61670fbeb3b89671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 14/52] fix: trx modifier without value is an error not a panic

---
 trx/trx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 8a67e6f..52f4fb4 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -260,6 +260,12 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 		m[0] = strings.Trim(m[0], ":")
 		switch m[0] {
+		case "idle", "rows", "save-insert-id", "save-columns", "copies":
+			if len(m) < 2 {
+				return nil, fmt.Errorf("invalid %s modifier: no value specified: '%s'", m[0], mod)
+			}
+		}
+		switch m[0] {
 		case "prepare", "prepared":
 			s.Prepare = true
 		case "idle":
@@ -298,7 +304,6 @@ func (f *File) statements() ([]*Statement, error) {
 			}
 			s.Limit = limit.Or(s.Limit, lm)
 		case "save-insert-id":
-			// @todo check len(m)
 			if s.ResultSet {
 				return nil, fmt.Errorf("save-insert-id not allowed on SELECT")
 			}
@@ -310,7 +315,6 @@ func (f *File) statements() ([]*Statement, error) {
 			s.InsertId = dataKey
 			s.Outputs = append(s.Outputs, dataKey)
 		case "save-columns":
-			// @todo check len(m)
 			for i, col := range m[1:] {
 				// @todo split csv (handle "col1,col2" instead of "col1, col2")
 				dataKey, err := f.column(i, col)
-- 
2.43.0


From ad9324ddf5ee470a0062d690d049895f69414b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:55 +0000
Subject: [PATCH 15/52] fix: don't reuse closed connection and its session
 state on client reconnect

---
 dbconn/factory.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index 67591f9..d68d18e 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -57,6 +57,12 @@ func Make() (*sql.DB, string, error) {
 	if err != nil {
 		return nil, "", err
 	}
+
+	// Don't keep closed connections in the pool: when a client reconnects, it
+	// must get a new connection, not the one it just closed that might have an
+	// open trx or other session state.
+	db.SetMaxIdleConns(0)
+
 	return db, RedactedDSN(f.dsn), nil
 }
 
-- 
2.43.0


From 19332a0e0e946ffff85220a7b261eafa860b4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 16/52] fix: invalid DSN is an error not a nil pointer panic

---
 dbconn/factory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dbconn/factory.go b/dbconn/factory.go
index d68d18e..ce98225 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -232,6 +232,7 @@ func RedactedDSN(dsn string) string {
 	redactedPassword, err := mysql.ParseDSN(dsn)
 	if err != nil { // ok to ignore
 		finch.Debug("mysql.ParseDSN error: %s", err)
+		return "(invalid DSN)" // can't redact what can't be parsed
 	}
 	redactedPassword.Passwd = "..."
 	return redactedPassword.FormatDSN()
-- 
2.43.0


From 1b5efe42013c9930e16a82729002203db0c07b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:59 +0000
Subject: [PATCH 17/52] fix: use TLS config from my.cnf

---
 dbconn/mycnf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbconn/mycnf.go b/dbconn/mycnf.go
index 99d56de..6b990f0 100644
--- a/dbconn/mycnf.go
+++ b/dbconn/mycnf.go
@@ -37,9 +37,9 @@ func ParseMyCnf(file string) (config.MySQL, error) {
 	//   https://dev.mysql.com/doc/refman/8.0/en/connection-options.html#option_general_ssl-mode
 	// But Go tls.Config (which is derived from config.TLS) has only two
 	// options: specify tls.Confg.ServerName _or_ .InsecureSkipVerify=true.
-	mysqlTLS(file, mycnf, &cfg)
+	cfg.TLS = mysqlTLS(file, mycnf, &cfg)
 
-	finch.Debug("mycnf %s: %s %+v", file, cfg.Redacted())
+	finch.Debug("mycnf %s: %s", file, cfg.Redacted())
 	return cfg, nil
 }
 
-- 
2.43.0


From 019e868e797b7ff068a53a39821b206fe4e05333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 18/52] fix: validate and use mysql.timeout-connect, validate
 mysql.tls

---
 config/file.go    | 11 +++++++++++
 dbconn/factory.go |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/config/file.go b/config/file.go
index 60bd355..527cfc5 100644
--- a/config/file.go
+++ b/config/file.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"path/filepath"
+	"time"
 
 	"github.com/square/finch"
 )
@@ -567,6 +568,16 @@ func (c *MySQL) Vars(params map[string]string) error {
 }
 
 func (c *MySQL) Validate() error {
+	if c.TimeoutConnect != "" {
+		if d, err := time.ParseDuration(c.TimeoutConnect); err != nil {
+			return fmt.Errorf("invalid config.mysql.timeout-connect: %s: %s", c.TimeoutConnect, err)
+		} else if d < 0 {
+			return fmt.Errorf("invalid config.mysql.timeout-connect: %s: must be greater than or equal to zero", c.TimeoutConnect)
+		}
+	}
+	if err := c.TLS.Validate(); err != nil {
+		return err
+	}
 	return nil
 }
 
diff --git a/dbconn/factory.go b/dbconn/factory.go
index ce98225..da13ab4 100644
--- a/dbconn/factory.go
+++ b/dbconn/factory.go
@@ -110,6 +110,10 @@ func (f *factory) setDSN() error {
 
 	params := []string{"parseTime=true"}
 
+	if f.cfg.TimeoutConnect != "" {
+		params = append(params, "timeout="+f.cfg.TimeoutConnect) // already validated
+	}
+
 	// Go says "either ServerName or InsecureSkipVerify must be specified".
 	// This is a pathological case: socket and TLS but no hostname to verify
 	// and user didn't explicitly set skip-verify=true. So we set this latter
-- 
2.43.0


From 54abd830712ddd591f9b385e8e5ffa586e32dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 19/52] fix: substitute params in iter limits, mysql hostname,
 and mysql socket

---
 config/file.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/config/file.go b/config/file.go
index 527cfc5..da5cffa 100644
--- a/config/file.go
+++ b/config/file.go
@@ -438,6 +438,18 @@ func (c *ClientGroup) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Iter, err = Vars(c.Iter, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterClients, err = Vars(c.IterClients, params, true)
+	if err != nil {
+		return err
+	}
+	c.IterExecGroup, err = Vars(c.IterExecGroup, params, true)
+	if err != nil {
+		return err
+	}
 	c.QPS, err = Vars(c.QPS, params, true)
 	if err != nil {
 		return err
@@ -541,6 +553,14 @@ func (c *MySQL) Vars(params map[string]string) error {
 	if err != nil {
 		return err
 	}
+	c.Hostname, err = Vars(c.Hostname, params, false)
+	if err != nil {
+		return err
+	}
+	c.Socket, err = Vars(c.Socket, params, false)
+	if err != nil {
+		return err
+	}
 	c.MyCnf, err = Vars(c.MyCnf, params, false)
 	if err != nil {
 		return err
-- 
2.43.0


From 4905c29f5ef005134d7f4c76e6e7bcf23dd6c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:07 +0000
Subject: [PATCH 20/52] fix: --param overrides stage params, with or without
 base params

---
 config/config.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/config/config.go b/config/config.go
index d29dd95..a8e7420 100644
--- a/config/config.go
+++ b/config/config.go
@@ -82,16 +82,6 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 				finch.Debug("base: none in %s", dir)
 			}
 
-			// --param foo=bar on command line overrides .params in stage files
-			if len(b.Params) > 0 {
-				if b.Params == nil {
-					b.Params = map[string]string{}
-				}
-				for k, v := range params {
-					b.Params[k] = v
-				}
-			}
-
 			base[dir] = b
 		}
 
@@ -115,6 +105,14 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		// Set stage with defaults (base)
 		f.Stage.With(b)
 
+		// --param foo=bar on command line overrides .params in stage (and base) files
+		if len(params) > 0 && f.Stage.Params == nil {
+			f.Stage.Params = map[string]string{}
+		}
+		for k, v := range params {
+			f.Stage.Params[k] = v
+		}
+
 		// --dsn and --database on command line override config files
 		f.Stage.CommandLine(dsn, db)
 
-- 
2.43.0


From d620dbcc07a6be59e8751432510df92957a4b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 21/52] fix: base stats don't overwrite stage stats

---
 config/file.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/config/file.go b/config/file.go
index da5cffa..7bac5c6 100644
--- a/config/file.go
+++ b/config/file.go
@@ -69,8 +69,10 @@ func (c *Stage) With(b Base) {
 
 	// Stats has a map, so copy in all fields manually
 	c.Stats.Disable = setBool(c.Stats.Disable, b.Stats.Disable)
-	c.Stats.Freq = b.Stats.Freq
-	if len(b.Stats.Report) > 0 {
+	if c.Stats.Freq == "" {
+		c.Stats.Freq = b.Stats.Freq
+	}
+	if len(b.Stats.Report) > 0 && len(c.Stats.Report) == 0 {
 		c.Stats.Report = map[string]map[string]string{}
 		for r := range b.Stats.Report {
 			c.Stats.Report[r] = map[string]string{}
-- 
2.43.0


From 4943d0076fcafd5a4601751cfa6aff8ba3d0e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:12 +0000
Subject: [PATCH 22/52] fix: replace whole param references and numbers, not
 prefixes of others

---
 config/config.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/config/config.go b/config/config.go
index a8e7420..26f5135 100644
--- a/config/config.go
+++ b/config/config.go
@@ -207,7 +207,7 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 		if len(m) == 0 {
 			continue
 		}
-		rep := make([]string, 0, len(m)*2)
+		rep := make(map[string]string, len(m)) // whole reference -> value
 		for i := range m {
 			v := m[i]
 			//p := strings.Trim(v[1], "{}")
@@ -219,27 +219,28 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 				if !ok {
 					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
 				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (user-defined)", s, rep)
+				rep[v[0]] = val
+				finch.Debug("param: %s (user-defined)", v[0]) // don't print value, might be a password
 			case strings.HasPrefix(p, "sys."):
 				k := strings.TrimPrefix(p, "sys.")
 				val, ok := finch.SystemParams[k]
 				if !ok {
 					return "", fmt.Errorf("%s not defined (is it spelled correctly?)", p)
 				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (built-in)", s, rep)
+				rep[v[0]] = val
+				finch.Debug("param: %s (built-in)", v[0]) // don't print value, might be a password
 			default:
 				val, ok := os.LookupEnv(p)
 				if !ok {
 					return "", fmt.Errorf("environment variable %s not set (is it spelled correctly?)", p)
 				}
-				rep = append(rep, v[0], val)
-				finch.Debug("param: %s -> %v (env var)", s, rep)
+				rep[v[0]] = val
+				finch.Debug("param: %s (env var)", v[0]) // don't print value, might be a password
 			}
 		}
-		r := strings.NewReplacer(rep...)
-		s = r.Replace(s)
+		// Replace whole references because one can be the prefix of another,
+		// like $params.foo and $params.foobar
+		s = r.ReplaceAllStringFunc(s, func(ref string) string { return rep[ref] })
 	}
 
 	if !numbers {
@@ -251,7 +252,7 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 	if len(m) == 0 {
 		return s, nil // no human numbers
 	}
-	rep := []string{}
+	rep := map[string]string{} // whole human number -> integer
 	for i := range m {
 		// To keep the regex simple, reHumanNumber also matches ints like 1000,
 		// but don't waste time parsing something that's already machine number.
@@ -262,14 +263,18 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 		if err != nil {
 			return "", fmt.Errorf("invalid human-readable number: %s: %s", m[i][1], err)
 		}
-		rep = append(rep, m[i][0], strconv.FormatUint(d, 10))
+		rep[m[i][0]] = strconv.FormatUint(d, 10)
 	}
 	if len(rep) == 0 { // all machine numbers (see comment above)
 		return s, nil
 	}
 	finch.Debug("var: %s -> %v", s, rep)
-	r := strings.NewReplacer(rep...)
-	return r.Replace(s), nil
+	return reHumanNumber.ReplaceAllStringFunc(s, func(n string) string {
+		if d, ok := rep[n]; ok {
+			return d
+		}
+		return n
+	}), nil
 }
 
 // setBool sets c to the value of b if c is nil (not set). Pointers are required
-- 
2.43.0


From 000b7137d70ee9ba8651d88d1cb4663fc4c58527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 23/52] fix: don't print MySQL password in debug output

---
 boot/boot.go     |  6 +++++-
 config/config.go |  2 +-
 config/file.go   | 14 +++++++++++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/boot/boot.go b/boot/boot.go
index 3c005fa..8f017b5 100644
--- a/boot/boot.go
+++ b/boot/boot.go
@@ -44,7 +44,11 @@ func Up(env Env) error {
 
 	// Set global debug var first because all code calls finch.Debug
 	finch.Debugging = cmdline.Options.Debug
-	finch.Debug("finch %s %+v", finch.VERSION, cmdline)
+	redacted := cmdline
+	if redacted.Options.DSN != "" {
+		redacted.Options.DSN = "..." // don't print password
+	}
+	finch.Debug("finch %s %+v", finch.VERSION, redacted)
 
 	// Return early (don't boot/run) --help and --verison
 	if cmdline.Options.Help {
diff --git a/config/config.go b/config/config.go
index 26f5135..a7bdb8d 100644
--- a/config/config.go
+++ b/config/config.go
@@ -268,7 +268,7 @@ func Vars(s string, params map[string]string, numbers bool) (string, error) {
 	if len(rep) == 0 { // all machine numbers (see comment above)
 		return s, nil
 	}
-	finch.Debug("var: %s -> %v", s, rep)
+	finch.Debug("var: %d human numbers", len(rep)) // don't print values, might be a password
 	return reHumanNumber.ReplaceAllStringFunc(s, func(n string) string {
 		if d, ok := rep[n]; ok {
 			return d
diff --git a/config/file.go b/config/file.go
index 7bac5c6..c7baa3e 100644
--- a/config/file.go
+++ b/config/file.go
@@ -603,11 +603,23 @@ func (c *MySQL) Validate() error {
 	return nil
 }
 
+// Redacted returns the config as a string without the password, which can be
+// in the DSN, too.
 func (c MySQL) Redacted() string {
 	if c.Password != "" {
 		c.Password = "..."
 	}
-	return fmt.Sprintf("%+v", c)
+	if c.DSN != "" {
+		c.DSN = "..."
+	}
+	type noString MySQL // without String, else infinite recursion
+	return fmt.Sprintf("%+v", noString(c))
+}
+
+// String implements fmt.Stringer so that printing a config that includes MySQL
+// (like Stage and Base) doesn't print the password.
+func (c MySQL) String() string {
+	return c.Redacted()
 }
 
 // --------------------------------------------------------------------------
-- 
2.43.0


From 5fb9afcdbf41aed61f454a0cd4066c33267a0141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:42 +0000
Subject: [PATCH 24/52] fix: params that reference params don't depend on map
 order

---
 config/file.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/config/file.go b/config/file.go
index c7baa3e..05750e2 100644
--- a/config/file.go
+++ b/config/file.go
@@ -111,10 +111,20 @@ func (c *Stage) Vars() error {
 	var err error
 
 	// First interpolate the params before they're used in other config vars
-	for k, v := range c.Params {
-		c.Params[k], err = Vars(v, c.Params, true)
-		if err != nil {
-			return fmt.Errorf("in params: %s", err)
+	// A param can reference other params that also reference params, so repeat until
+	// nothing changes, but no more times than there are params because map order is
+	// random, so each pass is guaranteed to resolve only one more level of references.
+	for n, changed := 0, true; changed && n < len(c.Params); n++ {
+		changed = false
+		for k, v := range c.Params {
+			val, err := Vars(v, c.Params, true)
+			if err != nil {
+				return fmt.Errorf("in params: %s", err)
+			}
+			if val != v {
+				c.Params[k] = val
+				changed = true
+			}
 		}
 	}
 
-- 
2.43.0


From 913b6eaf15af51616d03d0e8252455322027676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 25/52] fix: don't run disabled stages

---
 compute/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compute/server.go b/compute/server.go
index 8a253d5..8bb344e 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -49,6 +49,11 @@ func NewServer(name, addr string, test bool) *Server {
 
 func (s *Server) Run(ctxFinch context.Context, stages []config.Stage) error {
 	for _, cfg := range stages {
+		if cfg.Disable {
+			log.Printf("Stage %s is disabled, skipping", cfg.Name)
+			continue
+		}
+
 		// cd dir of config file so relative file paths in config work
 		if err := os.Chdir(filepath.Dir(cfg.File)); err != nil {
 			return err
-- 
2.43.0


From 9ad38f86b5d568899cb3f6a7f2fbbc87b95124ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 26/52] fix: zero compute instances is the default instead of
 hanging on boot

---
 config/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/file.go b/config/file.go
index 05750e2..655282c 100644
--- a/config/file.go
+++ b/config/file.go
@@ -312,7 +312,7 @@ func (c *Compute) Validate() error {
 	if err := parseInt(c.Instances); err != nil {
 		return fmt.Errorf("instances: '%s' is not an integer: %s", c.Instances, err)
 	}
-	if c.Instances == "" {
+	if finch.Uint(c.Instances) == 0 { // not set or zero
 		c.Instances = "1"
 	}
 	return nil
-- 
2.43.0


From 28625de1189b8ca2f6b09b304fe95203a0443ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 27/52] fix: send data on every try and don't cancel request
 before reading response

---
 proto/proto.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 45cace3..d083d93 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -58,7 +58,9 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 
 	buf := new(bytes.Buffer)
 	if data != nil {
-		json.NewEncoder(buf).Encode(data)
+		if err := json.NewEncoder(buf).Encode(data); err != nil {
+			return nil, nil, err
+		}
 	}
 
 	var err error
@@ -69,15 +71,21 @@ func (c *Client) request(ctx context.Context, method string, endpoint string, pa
 	for r.Tries == -1 || try < r.Tries {
 		try += 1
 		ctxReq, cancelReq := context.WithTimeout(ctx, r.Timeout)
-		req, _ = http.NewRequestWithContext(ctxReq, method, url, buf)
+		// New reader on every try, else only the first try sends data
+		req, err = http.NewRequestWithContext(ctxReq, method, url, bytes.NewReader(buf.Bytes()))
+		if err != nil {
+			cancelReq()
+			return nil, nil, err
+		}
 		resp, err = c.client.Do(req)
-		cancelReq()
 		if err != nil {
+			cancelReq()
 			goto RETRY
 		}
 
 		body, err = io.ReadAll(resp.Body)
 		resp.Body.Close()
+		cancelReq() // after reading body, else reading it fails
 		if err != nil {
 			return nil, nil, err
 		}
-- 
2.43.0


From 39bbad3cdfffa0dcb5757bf6beb1caac6014358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 28/52] fix: stop waiting for remotes to reset after timeout

---
 compute/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compute/api.go b/compute/api.go
index a45ea26..7982f7e 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -121,12 +121,13 @@ func (a *API) Stage(newStage *stageMeta) error {
 	// Wait for clients to check in (GET /run), be signaled that stage.done=true,
 	// send final stats, then call POST /run to terminate
 	timeout := time.After(3 * time.Second)
+WAIT:
 	for {
 		time.Sleep(100 * time.Millisecond)
 		select {
 		case <-timeout:
 			finch.Debug("timeout waiting for clients to reset")
-			break
+			break WAIT
 		default:
 		}
 		oldStage.Lock()
-- 
2.43.0


From 5aa519a05f3934abb9ba0e9768582792fb878217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:44 +0000
Subject: [PATCH 29/52] fix: remote state changes are atomic, failed remote
 boot frees its place in the stage

---
 compute/api.go | 113 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 87 insertions(+), 26 deletions(-)

diff --git a/compute/api.go b/compute/api.go
index 7982f7e..9ba196a 100644
--- a/compute/api.go
+++ b/compute/api.go
@@ -47,8 +47,42 @@ type stageMeta struct {
 
 type client struct {
 	name  string
-	stage *stageMeta
-	state byte
+	stage *stageMeta // nil until assigned to a stage
+	state byte       // guarded by stage.Mutex once assigned to a stage
+}
+
+// is returns true if the client is in the given state.
+func (rc *client) is(state byte) bool {
+	if rc.stage == nil {
+		return rc.state == state // new client, not assigned to a stage
+	}
+	rc.stage.Lock()
+	defer rc.stage.Unlock()
+	return rc.state == state
+}
+
+// advance changes the client state if it's still in the from state. It returns
+// false if not, which happens on duplicate (retried) requests.
+func (rc *client) advance(from, to byte) bool {
+	rc.stage.Lock()
+	defer rc.stage.Unlock()
+	if rc.state != from {
+		return false
+	}
+	rc.state = to
+	return true
+}
+
+// leave is advance plus removing the client from the stage.
+func (rc *client) leave(from, to byte) bool {
+	rc.stage.Lock()
+	defer rc.stage.Unlock()
+	if rc.state != from {
+		return false
+	}
+	rc.state = to
+	delete(rc.stage.clients, rc.name)
+	return true
 }
 
 func NewAPI(addr string) *API {
@@ -160,7 +194,7 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 
 	if get {
 		// GET /boot: client is booting, waiting to receive config.File
-		if rc.state != ready {
+		if !rc.is(ready) {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
@@ -168,34 +202,46 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		// Wait until there's a stage that's not done booting (needs more instances)
 		log.Printf("Remote %s ready to boot\n", rc.name)
 		for {
+			// Stop if client gave up waiting, else it's assigned to the stage but
+			// doesn't know it
+			if r.Context().Err() != nil {
+				return
+			}
+
 			// Has server set a stage?
+			n := 0
 			a.Lock()
 			stage := a.stage // copy ptr
-			if stage == nil || stage.done {
+			if stage == nil {
 				a.Unlock()
 				goto RETRY // no stage
 			}
 
-			// Is the stage still booting (waiting for instances)?
+			// Is the stage still booting (waiting for instances)? Is this client
+			// already assigned to it (duplicate request)?
 			stage.Lock()
-			if stage.booted || len(stage.clients) == int(stage.nRemotes) {
+			if stage.done || stage.booted || len(stage.clients) >= int(stage.nRemotes) || stage.clients[rc.name] != nil {
 				stage.Unlock()
 				a.Unlock()
-				goto RETRY // stage is full
+				goto RETRY // stage is done or full
 			}
 
 			// Stage is ready and there's a space for this client
 			stage.clients[rc.name] = rc
 			rc.stage = stage
 			rc.state = booting // advance client state
+			n = len(stage.clients)
 
 			// Unwind locks before sending stage config via HTTP in case net is slow
 			stage.Unlock()
 			a.Unlock()
 
 			finch.Debug("assigned %s to stage %s (%s): %d of %d clients", rc.name, stage.cfg.Name, stage.cfg.Id,
-				len(stage.clients), stage.nRemotes)
-			json.NewEncoder(w).Encode(stage.cfg) // send stage config
+				n, stage.nRemotes)
+			if err := json.NewEncoder(w).Encode(stage.cfg); err != nil { // send stage config
+				log.Printf("Lost client %s on boot: %s", rc.name, err)
+				rc.leave(booting, ready)
+			}
 			return
 
 		RETRY:
@@ -203,7 +249,7 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 		}
 	} else {
 		// POST /boot: client is ack'ing previous GET /boot; body is error message, if any
-		if rc.state != booting {
+		if !rc.is(booting) {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
@@ -214,17 +260,21 @@ func (a *API) boot(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
 
-		// Remote might fail to boot. If that's the case, do not advance its state;
-		// it should call GET /boot again to reset itself and try again.
+		// Remote might fail to boot. If that's the case, remove it from the stage;
+		// it (or another remote) should call GET /boot again to try again.
 		var clientErr error
 		if string(body) != "" {
-			// Don't advance state: client failed to boot, so it's not ready to run
 			clientErr = fmt.Errorf("%s", string(body))
+			ok = rc.leave(booting, ready)
 		} else {
-			rc.state = runnable // advance client state (successful boot)
+			ok = rc.advance(booting, runnable) // successful boot
 		}
+		if !ok { // duplicate ack
+			w.WriteHeader(http.StatusPreconditionFailed)
+			return
+		}
+		w.WriteHeader(http.StatusOK)
 		rc.stage.bootChan <- ack{name: rc.name, err: clientErr}
 
 	}
@@ -236,7 +286,7 @@ func (a *API) file(w http.ResponseWriter, r *http.Request) {
 		return // client() wrote error response
 	}
 
-	if rc.state != booting {
+	if !rc.is(booting) {
 		w.WriteHeader(http.StatusPreconditionFailed)
 		return
 	}
@@ -299,14 +349,18 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 
 	if get {
 		// GET /run: client is waiting for signal to run previously booted stage
-		if rc.state != runnable {
+		if !rc.is(runnable) {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
 
 		// Remote is waiting for next stage to run
 		log.Printf("Remote %s waiting to start...", rc.name)
-		<-rc.stage.runChan // closed in Server.Run, or api.Stage if --test
+		select {
+		case <-rc.stage.runChan: // closed in Server.Run, or api.Stage if --test
+		case <-r.Context().Done():
+			return // client gave up waiting
+		}
 
 		// If boot --test and there's a new stage, Server.Boot calls api.Stage
 		// which will stop the old stage and trigger this block.
@@ -319,17 +373,24 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 		}
 		rc.stage.Unlock()
 
+		// Advance client state before telling it to run, else it can send stats or
+		// done signal before its state is running
+		if !rc.advance(runnable, running) {
+			w.WriteHeader(http.StatusPreconditionFailed)
+			return
+		}
+
 		w.WriteHeader(http.StatusOK)
 		if _, err := w.Write([]byte{0}); err != nil {
+			rc.advance(running, runnable)
 			log.Printf("Lost client %s on stage %s, but it will return\n", rc.name, rc.stage.cfg.Name)
 			return
 		}
 
 		log.Printf("Started client %s on stage %s\n", rc.name, rc.stage.cfg.Name)
-		rc.state = running // advance client state
 	} else {
 		// POST /run: client is done running stage
-		if rc.state != running {
+		if !rc.is(running) {
 			w.WriteHeader(http.StatusPreconditionFailed)
 			return
 		}
@@ -340,11 +401,12 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 			log.Printf("Error reading error from client on POST /run, ignoring: %s", err)
 		}
 		r.Body.Close()
-		w.WriteHeader(http.StatusOK)
 
-		rc.stage.Lock()
-		delete(rc.stage.clients, rc.name)
-		rc.stage.Unlock()
+		if !rc.leave(running, ready) { // duplicate done signal
+			w.WriteHeader(http.StatusPreconditionFailed)
+			return
+		}
+		w.WriteHeader(http.StatusOK)
 
 		// Tell server client completed stage
 		var clientErr error
@@ -352,7 +414,6 @@ func (a *API) run(w http.ResponseWriter, r *http.Request) {
 			clientErr = fmt.Errorf("%s", string(body))
 		}
 		rc.stage.doneChan <- ack{name: rc.name, err: clientErr}
-		rc.state = ready // advance client state (ready to run another stage)
 	}
 }
 
@@ -365,7 +426,7 @@ func (a *API) stats(w http.ResponseWriter, r *http.Request) {
 	// Stats are sent only while running. If this error occurs, it might just be
 	// a network issue that delayed stats sent earlier (before client stopped running).
 	// If it happens frequently, then it's probably a bug in Finch.
-	if rc.state != running {
+	if !rc.is(running) {
 		w.WriteHeader(http.StatusPreconditionFailed)
 		return
 	}
-- 
2.43.0


From a345d032536e1bd4d1caf20f95874bc98c325c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:01 +0000
Subject: [PATCH 30/52] fix: reset remotes waiting to run when testing stages

---
 compute/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compute/server.go b/compute/server.go
index 8bb344e..ed35c5c 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -75,6 +75,7 @@ func (s *Server) Run(ctxFinch context.Context, stages []config.Stage) error {
 func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	var err error
 	stageName := cfg.Name
+	cfg.Test = s.test // API.Stage resets remotes waiting to run if --test
 
 	nInstances := finch.Uint(cfg.Compute.Instances)
 	nRemotes := nInstances - 1 // -1 for local unless..
-- 
2.43.0


From 50ebda9be31f91f1f4eb3c2e1db98b9dc1698442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 31/52] fix: interrupted stage doesn't wait forever (busy loop)
 for lost remotes

---
 compute/server.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/compute/server.go b/compute/server.go
index ed35c5c..5feaf52 100644
--- a/compute/server.go
+++ b/compute/server.go
@@ -166,11 +166,15 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 	finch.Debug("run %s", stageName)
 	close(m.runChan) // signal remotes to run
 
+	localDone := make(chan struct{})
 	if local != nil { // start local instance
 		go func() {
+			defer close(localDone)
 			local.Run(ctxFinch)
 			m.doneChan <- ack{name: s.name}
 		}()
+	} else {
+		close(localDone)
 	}
 
 	// Wait for instances to finish running
@@ -190,9 +194,15 @@ func (s *Server) run(ctxFinch context.Context, cfg config.Stage) error {
 			}
 		case <-ctxFinch.Done():
 			// Signal remote instances to stop early and (maybe) send finals stats
-			if s.api != nil {
-				s.api.Stage(nil)
+			if s.api != nil && nRemotes > 0 {
+				if err := s.api.Stage(nil); err != nil {
+					return err
+				}
 			}
+			// Local stops on ctxFinch, too, so it's almost done. Remotes that did not
+			// stop (above) might be lost, so don't wait for them.
+			<-localDone
+			return nil
 		}
 	}
 
-- 
2.43.0


From d698e6672d3418575af0b8a3643d342bde8dccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 32/52] fix: trx files with same name in different dirs don't
 overwrite each other on remotes

---
 compute/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compute/client.go b/compute/client.go
index d7b0542..b128539 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -202,7 +202,8 @@ func (c *Client) getTrxFiles(ctxFinch context.Context, cfg config.Stage, tmpdir
 		}
 		finch.Debug("%+v", resp)
 
-		filename := filepath.Join(tmpdir, filepath.Base(trx[i].File))
+		// Files in different dirs can have the same name
+		filename := filepath.Join(tmpdir, fmt.Sprintf("%d-%s", i, filepath.Base(trx[i].File)))
 		f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0440)
 		if err != nil {
 			return err
-- 
2.43.0


From f223f3a40615efc5a935c7c17d0e382f00e46dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 33/52] fix: disabled stats are disabled on remotes, too

---
 compute/client.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/compute/client.go b/compute/client.go
index b128539..80fde13 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -95,24 +95,30 @@ func (c *Client) run(ctxFinch context.Context) error {
 
 	// ------------------------------------------------------------------
 	// Local boot and ack
-	for k := range cfg.Stats.Report {
-		if k == "stdout" {
-			continue
+	var collector *stats.Collector // nil if stats disabled, same as server
+	if !config.True(cfg.Stats.Disable) {
+		for k := range cfg.Stats.Report {
+			if k == "stdout" {
+				continue
+			}
+			delete(cfg.Stats.Report, k)
+		}
+		if cfg.Stats.Report == nil {
+			cfg.Stats.Report = map[string]map[string]string{}
+		}
+		cfg.Stats.Report["server"] = map[string]string{
+			"server":   c.addr,
+			"client":   c.name,
+			"stage-id": c.client.StageId,
+		}
+		collector, err = stats.NewCollector(cfg.Stats, c.name, 1)
+		if err != nil {
+			return err
 		}
-		delete(cfg.Stats.Report, k)
-	}
-	cfg.Stats.Report["server"] = map[string]string{
-		"server":   c.addr,
-		"client":   c.name,
-		"stage-id": c.client.StageId,
-	}
-	stats, err := stats.NewCollector(cfg.Stats, c.name, 1)
-	if err != nil {
-		return err
 	}
 
 	log.Printf("[%s] Booting", stageName)
-	local := stage.New(cfg, c.gds, stats)
+	local := stage.New(cfg, c.gds, collector)
 	if err := local.Prepare(ctxFinch); err != nil {
 		log.Printf("[%s] Boot error, notifying server: %s", stageName, err)
 		c.client.Send(ctxFinch, "/boot", err.Error(), proto.R{500 * time.Millisecond, 100 * time.Millisecond, 3}) // don't care if this fails
-- 
2.43.0


From ebd3e494b3d1c4232a78b065bb1e779754b2318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 34/52] fix: copying stats overwrites all error counts

---
 stats/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stats/stats.go b/stats/stats.go
index 3e8ea3f..515a1ad 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -112,6 +112,11 @@ func (s *Stats) Copy(c *Stats) {
 		s.Max[i] = c.Max[i]
 		s.N[i] = c.N[i]
 	}
+	for k := range s.Errors {
+		if _, ok := c.Errors[k]; !ok {
+			delete(s.Errors, k) // not in c, so don't keep old value
+		}
+	}
 	for k, v := range c.Errors {
 		s.Errors[k] = v
 	}
-- 
2.43.0


From d4576cb9da8ce5eb93ccfd884e154c9ce88a2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 35/52] fix: combining stats of an idle client doesn't set min
 to zero

---
 stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/stats.go b/stats/stats.go
index 515a1ad..a8cf7a4 100644
--- a/stats/stats.go
+++ b/stats/stats.go
@@ -130,7 +130,7 @@ func (s *Stats) Combine(c *Stats) {
 		for j := range s.Buckets[i] {
 			s.Buckets[i][j] += c.Buckets[i][j]
 		}
-		if c.Min[i] < s.Min[i] || s.N[i] == 0 {
+		if c.N[i] > 0 && (c.Min[i] < s.Min[i] || s.N[i] == 0) { // Min is not set if N=0
 			s.Min[i] = c.Min[i]
 		}
 		if c.Max[i] > s.Max[i] {
-- 
2.43.0


From 67cd3fdb239ee71126864e651580251535ec018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 36/52] fix: don't mix local stats of different intervals or
 overwrite buffered stats

---
 stats/collector.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 53a473a..5d8bd73 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -333,9 +333,18 @@ func (c *Collector) Collect() bool {
 
 	c.Lock()
 	defer c.Unlock()
-	c.interval[c.n] = c.local
-	c.n++
-	return c.Report(false)
+
+	// Make a copy because c.local is reused for the next interval, but stats might be
+	// buffered (interval not complete) or reported async (remote to server)
+	in := c.local
+	in.Total = NewStats()
+	in.Total.Copy(c.local.Total)
+	in.Trx = make(map[string]*Stats, len(c.local.Trx))
+	for trxName, s := range c.local.Trx {
+		in.Trx[trxName] = NewStats()
+		in.Trx[trxName].Copy(s)
+	}
+	return c.recv(in)
 }
 
 // Recv receives stats from remote compute instances. It's called by
@@ -344,14 +353,19 @@ func (c *Collector) Recv(in Instance) {
 	finch.Debug("recv %+v", in)
 	c.Lock()
 	defer c.Unlock()
+	c.recv(in)
+}
 
+// recv receives stats from any instance, local or remote, and returns true if they
+// completed an interval that was reported. The caller must lock c.
+func (c *Collector) recv(in Instance) bool {
 	// Is the received interval in the past? This can happen for stats from remote
 	// instances if, for example, there's a really bad network delay. Since the old
 	// interval has already been reported, and we don't buffer or report intervals
 	// out of order, we just have to drop the old/delayed interval.
 	if in.Interval < c.intervalNo {
 		log.Printf("Discarding past stats: %+v", in)
-		return
+		return false
 	}
 
 	// Reverse of above: is received interval in the future? If yes, then report
@@ -360,16 +374,26 @@ func (c *Collector) Recv(in Instance) {
 	// are return  lost, so the interval doesn't complete. This will report a partial interval.
 	if in.Interval > c.intervalNo {
 		log.Printf("Received next stats interval (%d) before current interval (%d) complete; reporting incomplete current interval; next stats: %+v", in.Interval, c.intervalNo, in)
-		c.Report(true) // true=force
-		c.interval[0] = in
-		c.n = 1
-		return
+		if c.n > 0 {
+			c.Report(true) // true=force
+		}
+		c.intervalNo = in.Interval
+		c.n = 0
+	}
+
+	// Already have stats from this instance in the current interval? This can happen
+	// if a remote instance resends stats because it didn't receive the reply.
+	for i := range c.interval[0:c.n] {
+		if c.interval[i].Hostname == in.Hostname {
+			log.Printf("Discarding duplicate stats: %+v", in)
+			return false
+		}
 	}
 
 	// Stats in current interval; buffer until we've received all stats
 	c.interval[c.n] = in
 	c.n += 1
-	c.Report(false)
+	return c.Report(false)
 }
 
 // Report reports stats when then current interval is completed: when there are
-- 
2.43.0


From d0588ef9c3f74a708e4452a32b03be424db1dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:33 +0000
Subject: [PATCH 37/52] fix: don't use stats line as format string

---
 stats/stdout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/stdout.go b/stats/stdout.go
index d615052..161ce36 100644
--- a/stats/stdout.go
+++ b/stats/stdout.go
@@ -131,7 +131,7 @@ func (r *Stdout) print(in *Instance) {
 	line = strings.Replace(line, "P", intsToString(s.Percentiles(WRITE, r.p), "\t", true), 1)
 	line = strings.Replace(line, "P", intsToString(s.Percentiles(COMMIT, r.p), "\t", true), 1)
 
-	fmt.Fprintf(r.w, line)
+	fmt.Fprint(r.w, line) // not Fprintf: line has instance hostname, which can have %
 }
 
 func (r *Stdout) Stop() {}
-- 
2.43.0


From 81f5672282791d365cc72921c8ebedfff8ff32b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 38/52] fix: don't wait for and report empty interval after
 last stats received

---
 stats/collector.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stats/collector.go b/stats/collector.go
index 5d8bd73..04ed7ef 100644
--- a/stats/collector.go
+++ b/stats/collector.go
@@ -264,14 +264,16 @@ func (c *Collector) Stop(timeout time.Duration, terminated bool) bool {
 			select {
 			case <-timeoutC:
 				c.Lock()
-				reported = c.Report(true) // true=force
+				reported = c.intervalNo > c.local.Interval || c.Report(true) // true=force
 				c.Unlock()
 				break WAIT
 			default:
 				time.Sleep(100 * time.Millisecond)
 			}
+			// Recv reports the interval when it receives the last stats, so don't
+			// report it again
 			c.Lock()
-			reported = c.Report(false)
+			reported = c.intervalNo > c.local.Interval || c.Report(false)
 			c.Unlock()
 		}
 	}
-- 
2.43.0


From e05ef5263acdd65614c2fd8f31de0b97770003a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 39/52] fix: replace whole data keys in statement, not prefix
 of another data key

---
 trx/trx.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 52f4fb4..b586376 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -474,7 +474,7 @@ func (f *File) statements() ([]*Statement, error) {
 
 				if dataCfg.Scope == "" {
 					dataCfg.Scope = finch.SCOPE_STATEMENT
-					f.cfg.Data[name] = dataCfg
+					f.cfg.Data[cfgKey(name)] = dataCfg
 				}
 
 				g, err = data.Make(
@@ -505,16 +505,11 @@ func (f *File) statements() ([]*Statement, error) {
 		}
 	}
 
-	replacements := make([]string, len(dataFormats)*2) // *2 because key + value
-	i := 0
-	for k, v := range dataFormats {
-		replacements[i] = k
-		replacements[i+1] = v
-		i += 2
-	}
-	finch.Debug("replacements: %v", replacements)
-	r := strings.NewReplacer(replacements...)
-	s.Query = r.Replace(query)
+	// Replace whole data keys because one can be the prefix of another, like @d and @d2
+	finch.Debug("replacements: %v", dataFormats)
+	s.Query = DataKeyPattern.ReplaceAllStringFunc(query, func(name string) string {
+		return dataFormats[name]
+	})
 
 	// Caller debug prints full Statement
 	return []*Statement{s}, nil
-- 
2.43.0


From f1915fa9c5bb2770c4c518909f873629d06980a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 40/52] fix: row scope changes whole data keys, not prefix of
 another data key

---
 trx/trx.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index b586376..15bcd3b 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -585,22 +585,17 @@ func Calls(dataKeys []string) []byte {
 // makes @d row scoped because each row will call @d again. This is called
 // when the /*!csv N template */ is being processed (see reCSV).
 func RowScope(keys map[string]bool, csvTemplate string) string {
-	csvDataKeys := DataKeyPattern.FindAllString(csvTemplate, -1)
-KEY:
-	for dataKey := range keys { // row scoped keys
-		for _, k := range csvDataKeys { // all keys in csvTemplate
-			if !strings.HasPrefix(k, dataKey) {
-				continue // not the row scoped key we're looking for
-			}
-			// This is first occurrence of row scoped key in csvTemplate.
-			// Add () suffix if not already set.
-			if !strings.HasSuffix(k, EXPLICIT_CALL_SUFFIX) {
-				csvTemplate = strings.Replace(csvTemplate, k, k+EXPLICIT_CALL_SUFFIX, 1) // 1=only first occurrence
-			}
-			continue KEY // only check/change first occurrence, so this row scoped key is done
+	seen := map[string]bool{}
+	return DataKeyPattern.ReplaceAllStringFunc(csvTemplate, func(k string) string {
+		dataKey := strings.TrimSuffix(k, EXPLICIT_CALL_SUFFIX)
+		if !keys[dataKey] || seen[dataKey] {
+			return k // not row scoped, or not first occurrence
 		}
-	}
-	return csvTemplate
+		// This is first occurrence of row scoped key in csvTemplate.
+		// Add () suffix (if already set, it was trimmed above).
+		seen[dataKey] = true
+		return dataKey + EXPLICIT_CALL_SUFFIX
+	})
 }
 
 func cfgKey(s string) string {
-- 
2.43.0


From 5e1e730c1b1a1c3d5758e850e718ce41de5a9783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 41/52] fix: return error reading trx file, don't parse partial
 file

---
 trx/trx.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trx/trx.go b/trx/trx.go
index 15bcd3b..767e5d4 100644
--- a/trx/trx.go
+++ b/trx/trx.go
@@ -5,7 +5,6 @@ package trx
 import (
 	"bufio"
 	"fmt"
-	"log"
 	"os"
 	"regexp"
 	"strconv"
@@ -137,6 +136,9 @@ func (f *File) Load() error {
 			return err
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return fmt.Errorf("error reading %s: %s", f.cfg.File, err) // e.g. line too long
+	}
 	err = f.line("") // last line
 	if err != nil {
 		return err
@@ -157,10 +159,6 @@ func (f *File) Load() error {
 		return fmt.Errorf("saved columns not referenced: %s", strings.Join(noRefs, ", "))
 	}
 
-	if err := scanner.Err(); err != nil {
-		log.Fatal(err) // shouldn't happen
-	}
-
 	f.set.Order = append(f.set.Order, f.cfg.Name)
 	f.set.Statements[f.cfg.Name] = f.stmts
 	f.set.Meta[f.cfg.Name] = Meta{
-- 
2.43.0


From 836f1f6dcedb591fcc6974ad37ae3151aadb2522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:35 +0000
Subject: [PATCH 42/52] fix: validation errors name the setting that is invalid

---
 config/file.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/config/file.go b/config/file.go
index 655282c..559b62c 100644
--- a/config/file.go
+++ b/config/file.go
@@ -266,12 +266,12 @@ func (c *Stage) Validate() error {
 	}
 
 	// Runtime
-	if err := ValidFreq(c.Runtime, "workload"); err != nil {
+	if err := ValidFreq(c.Runtime, "runtime"); err != nil {
 		return err
 	}
 
 	if err := parseInt(c.QPS); err != nil {
-		return fmt.Errorf("tps: '%s' is not an integer: %s", c.QPS, err)
+		return fmt.Errorf("qps: '%s' is not an integer: %s", c.QPS, err)
 	}
 	if err := parseInt(c.TPS); err != nil {
 		return fmt.Errorf("tps: '%s' is not an integer: %s", c.TPS, err)
@@ -398,7 +398,7 @@ type ClientGroup struct {
 
 func (c *ClientGroup) Validate(w []Trx) error {
 	if err := parseInt(c.Clients); err != nil {
-		return fmt.Errorf("client: '%s' is not an integer: %s", c.Clients, err)
+		return fmt.Errorf("clients: '%s' is not an integer: %s", c.Clients, err)
 	}
 	if c.Clients == "" {
 		c.Clients = "1"
@@ -415,13 +415,13 @@ func (c *ClientGroup) Validate(w []Trx) error {
 	}
 
 	if err := parseInt(c.QPS); err != nil {
-		return fmt.Errorf("iter: '%s' is not an integer: %s", c.QPS, err)
+		return fmt.Errorf("qps: '%s' is not an integer: %s", c.QPS, err)
 	}
 	if err := parseInt(c.QPSClients); err != nil {
-		return fmt.Errorf("iter-clients: '%s' is not an integer: %s", c.QPSClients, err)
+		return fmt.Errorf("qps-clients: '%s' is not an integer: %s", c.QPSClients, err)
 	}
 	if err := parseInt(c.QPSExecGroup); err != nil {
-		return fmt.Errorf("iter-exec-group: '%s' is not an integer: %s", c.QPSExecGroup, err)
+		return fmt.Errorf("qps-exec-group: '%s' is not an integer: %s", c.QPSExecGroup, err)
 	}
 
 	if err := parseInt(c.TPS); err != nil {
-- 
2.43.0


From 869e7d9515559648767974c66b77aee2d37fb571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:33 +0000
Subject: [PATCH 43/52] fix: report errors writing stats to CSV file

---
 stats/csv.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stats/csv.go b/stats/csv.go
index 1c1c3ad..cbed3f3 100644
--- a/stats/csv.go
+++ b/stats/csv.go
@@ -41,13 +41,15 @@ func NewCSV(opts map[string]string) (*CSV, error) {
 
 	// @todo ensure at least 1 P enforced somewhere
 
-	fmt.Fprintf(f, Header,
+	header := fmt.Sprintf(Header,
 		strings.Join(sP, ","),                   // P total
 		strings.Join(withPrefix(sP, "r_"), ","), // read
 		strings.Join(withPrefix(sP, "w_"), ","), // write
 		strings.Join(withPrefix(sP, "c_"), ","), // commit
 	)
-	fmt.Fprintln(f)
+	if _, err := fmt.Fprintln(f, header); err != nil {
+		return nil, err
+	}
 
 	r := &CSV{
 		file: f,
@@ -118,7 +120,9 @@ func (r *CSV) Report(from []Instance) {
 	line = strings.Replace(line, "P", intsToString(total.Percentiles(WRITE, r.p), ",", false), 1)
 	line = strings.Replace(line, "P", intsToString(total.Percentiles(COMMIT, r.p), ",", false), 1)
 
-	fmt.Fprintln(r.file, line)
+	if _, err := fmt.Fprintln(r.file, line); err != nil {
+		log.Printf("Error writing stats to CSV file: %s", err)
+	}
 }
 
 func (r *CSV) Stop() {
-- 
2.43.0


From fc85d533da968be1304e00e70a161e132fef25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 44/52] fix: report error starting CPU profile

---
 stage/stage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stage/stage.go b/stage/stage.go
index ddb4ff8..f719e80 100644
--- a/stage/stage.go
+++ b/stage/stage.go
@@ -142,7 +142,9 @@ func (s *Stage) Run(ctxFinch context.Context) {
 	}
 
 	if finch.CPUProfile != nil {
-		pprof.StartCPUProfile(finch.CPUProfile)
+		if err := pprof.StartCPUProfile(finch.CPUProfile); err != nil {
+			log.Printf("[%s] Cannot start CPU profile: %s", s.cfg.Name, err)
+		}
 	}
 
 	for egNo := range s.execGroups { // ------------------------------------- execution groups
-- 
2.43.0


From a445672872821ca6ae8832b8f3627df148cec6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:49 +0000
Subject: [PATCH 45/52] fix: return error changing dir to load stage file, else
 trx files are looked up in the wrong dir

---
 config/config.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index a7bdb8d..24e3864 100644
--- a/config/config.go
+++ b/config/config.go
@@ -124,7 +124,9 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		// Chdir to confit file so relative trx file paths in the config work,
 		// e.g. "trx.file: trx/foo.sql" where trx/ is relative to the dir where
 		// the config file is located.
-		os.Chdir(filepath.Dir(fileName))
+		if err := os.Chdir(filepath.Dir(fileName)); err != nil {
+			return nil, err
+		}
 
 		// Validate config now that it's final (interpolated vars and chdir)
 		if err := f.Stage.Validate(); err != nil {
@@ -133,7 +135,9 @@ func Load(stageFiles []string, kvparams []string, dsn, db string) ([]Stage, erro
 		stages = append(stages, f.Stage)
 		finch.Debug("%+v", f.Stage)
 
-		os.Chdir(cwd)
+		if err := os.Chdir(cwd); err != nil {
+			return nil, err
+		}
 	}
 	return stages, nil
 }
-- 
2.43.0


From 74f47e39e9d1026a856bc2227c7cc989fe74b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:55 +0000
Subject: [PATCH 46/52] fix: name the int generator param in stddev error

---
 data/integer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/integer.go b/data/integer.go
index c297a26..85629fa 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -65,7 +65,7 @@ func NewInt(params map[string]string) (*Int, error) {
 			var err error
 			g.stddev, err = strconv.ParseFloat(s, 64)
 			if err != nil {
-				return nil, err
+				return nil, fmt.Errorf("invalid stddev=%s: %s", s, err)
 			}
 		} else {
 			g.stddev = (float64(g.max) - float64(g.min)) / 8.0
-- 
2.43.0


From bec3f90f61539e2b7fe13567d467f3a63769a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:57 +0000
Subject: [PATCH 47/52] fix: return error for unknown dist of int generator,
 else it silently uses uniform

---
 data/integer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 85629fa..41bec56 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -70,10 +70,10 @@ func NewInt(params map[string]string) (*Int, error) {
 		} else {
 			g.stddev = (float64(g.max) - float64(g.min)) / 8.0
 		}
-	case "uniform":
+	case "uniform", "":
 		g.dist = dist_uniform
 	default:
-		g.dist = dist_uniform
+		return nil, fmt.Errorf("invalid dist=%s: valid values: uniform, normal", params["dist"])
 	}
 	finch.Debug("rand int [%d, %d] dist %d (uni %d, norm %d)", g.min, g.max, g.dist, dist_uniform, dist_normal)
 	return g, nil
-- 
2.43.0


From c3174acb4d482586c77e421e940c095e6733e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:00 +0000
Subject: [PATCH 48/52] fix: normal int generator returns values outside [min,
 max], always if min > 1 and no mean

---
 data/integer.go                 | 10 ++++++++--
 docs/content/data/generators.md |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/data/integer.go b/data/integer.go
index 41bec56..71b2e2d 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -56,7 +56,7 @@ func NewInt(params map[string]string) (*Int, error) {
 			return nil, err
 		}
 		if mean == 0 {
-			mean = (g.max - g.min + 1) / 2
+			mean = g.min + (g.max-g.min)/2
 		}
 		g.mean = float64(mean)
 
@@ -95,7 +95,13 @@ func (g *Int) Values(_ RunCount) []interface{} {
 		if v < g.min || v > g.max {
 			v = int64(math.Floor(rand.NormFloat64()*g.stddev + g.mean))
 			if v < g.min || v > g.max {
-				return []interface{}{int64(g.mean)}
+				v = int64(g.mean)
+				if v < g.min {
+					v = g.min
+				}
+				if v > g.max {
+					v = g.max
+				}
 			}
 		}
 		return []interface{}{v}
diff --git a/docs/content/data/generators.md b/docs/content/data/generators.md
index 6a0135d..f9ce6d1 100644
--- a/docs/content/data/generators.md
+++ b/docs/content/data/generators.md
@@ -18,7 +18,7 @@ Random integer between `[min, max]` with uniform or normal distribution
 |`min`|1|v &ge; 0|
 |`max`|100,000|v &lt; 2<sup>64</sup>|
 |`dist`|`uniform`|`uniform` or `normal`|
-|`mean`|(max-min+1)/2||
+|`mean`|min+(max-min)/2||
 |`stddev`|max-min/8.0||
 {.compact .params}
 
-- 
2.43.0


From da4217ca0fb94af1322978f85c6edc391ca5f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:02 +0000
Subject: [PATCH 49/52] fix: auto-inc with step 0 returns the same value every
 time

---
 data/integer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/integer.go b/data/integer.go
index 71b2e2d..9b9c4c3 100644
--- a/data/integer.go
+++ b/data/integer.go
@@ -332,6 +332,9 @@ func NewAutoInc(params map[string]string) (*AutoInc, error) {
 		if err != nil {
 			return nil, fmt.Errorf("invalid step=%s: %s", s, err)
 		}
+		if i < 1 {
+			return nil, fmt.Errorf("invalid step=%s: must be >= 1", s)
+		}
 		g.step = i
 	}
 	return g, nil
-- 
2.43.0


From 5d07f04a822e9d723cbf449074528339b34a453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:21 +0000
Subject: [PATCH 50/52] fix: client-id with params but no ids returns no
 values, so its statement gets none

---
 data/id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/id.go b/data/id.go
index 82300e5..23d7bce 100644
--- a/data/id.go
+++ b/data/id.go
@@ -45,7 +45,7 @@ var _ Generator = &ClientId{}
 
 func NewClientId(params map[string]string) (*ClientId, error) {
 	ids := []byte{}
-	if len(params) == 0 {
+	if params["ids"] == "" {
 		ids = append(ids, CLIENT) // just client ID by default
 	} else {
 		csvIds := params["ids"]
-- 
2.43.0


From fc57e2320ba58b6d2a47e861f9cda58f16767ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:41 +0000
Subject: [PATCH 51/52] fix: tell server when remote fails to boot before
 preparing the stage

---
 compute/client.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/compute/client.go b/compute/client.go
index 80fde13..28abf4c 100644
--- a/compute/client.go
+++ b/compute/client.go
@@ -79,18 +79,25 @@ func (c *Client) run(ctxFinch context.Context) error {
 	defer func() { c.client.StageId = "" }()
 	fmt.Printf("#\n# %s (%s)\n#\n", stageName, cfg.Id)
 
+	// Tell server if boot fails for any reason, else it waits for this instance
+	bootErr := func(err error) error {
+		log.Printf("[%s] Boot error, notifying server: %s", stageName, err)
+		c.client.Send(ctxFinch, "/boot", err.Error(), proto.R{500 * time.Millisecond, 100 * time.Millisecond, 3}) // don't care if this fails
+		return err                                                                                                // return original error not Send error
+	}
+
 	// ----------------------------------------------------------------------
 	// Fetch all stage and trx files from server, put in local temp dir
 	tmpdir, err := os.MkdirTemp("", "finch")
 	if err != nil {
-		return fmt.Errorf("cannot make temp dir: %s", err)
+		return bootErr(fmt.Errorf("cannot make temp dir: %s", err))
 	}
 	if !finch.Debugging {
 		defer os.RemoveAll(tmpdir)
 	}
 	finch.Debug("tmp dir: %s", tmpdir)
 	if err := c.getTrxFiles(ctxFinch, cfg, tmpdir); err != nil {
-		return err
+		return bootErr(err)
 	}
 
 	// ------------------------------------------------------------------
@@ -113,16 +120,14 @@ func (c *Client) run(ctxFinch context.Context) error {
 		}
 		collector, err = stats.NewCollector(cfg.Stats, c.name, 1)
 		if err != nil {
-			return err
+			return bootErr(err)
 		}
 	}
 
 	log.Printf("[%s] Booting", stageName)
 	local := stage.New(cfg, c.gds, collector)
 	if err := local.Prepare(ctxFinch); err != nil {
-		log.Printf("[%s] Boot error, notifying server: %s", stageName, err)
-		c.client.Send(ctxFinch, "/boot", err.Error(), proto.R{500 * time.Millisecond, 100 * time.Millisecond, 3}) // don't care if this fails
-		return err                                                                                                // return original error not Send error
+		return bootErr(err)
 	}
 
 	// Boot ack; don't continue on error because we're no longer in sync with server
-- 
2.43.0


From dbac1f96ee70088fed6a3f7824fac595ec4236ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:08 +0000
Subject: [PATCH 52/52] fix: stdout reporter prints combined stats by default
 and of one instance

---
 stats/stdout.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stats/stdout.go b/stats/stdout.go
index 161ce36..b2ebda1 100644
--- a/stats/stdout.go
+++ b/stats/stdout.go
@@ -57,6 +57,8 @@ func NewStdout(opts map[string]string) (*Stdout, error) {
 	_, ok2 := opts["combined"]
 	if !ok1 && !ok2 { // neither option explicitly configured
 		r.each = true
+	}
+	if !ok2 { // default yes
 		r.combined = true
 	}
 
@@ -76,7 +78,7 @@ func (r *Stdout) Report(from []Instance) {
 			r.print(&from[i])
 		}
 	}
-	if r.combined && len(from) > 1 {
+	if r.combined && (len(from) > 1 || !r.each) { // one instance is combined stats, too
 		r.all.Combine(from)
 		r.print(r.all)
 	}
-- 
2.43.0

