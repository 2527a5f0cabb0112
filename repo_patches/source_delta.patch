From b80ab70fdf95036137d8eca536c0720ecde02077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 01/30] fix: detect recursion in lookups and in scope variable
 interpolation instead of overflowing the stack

---
 session/interpolate.go | 11 ++++++++++-
 session/invocation.go  | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/session/interpolate.go b/session/interpolate.go
index 565b8c7..9d99453 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 
 	"github.com/lyraproj/dgo/dgo"
+	"github.com/lyraproj/dgo/util"
 	"github.com/lyraproj/dgo/vf"
 	"github.com/lyraproj/hiera/api"
 )
@@ -160,7 +161,15 @@ func (ic *ivContext) InterpolateString(str string, allowMethods bool) (dgo.Value
 // InterpolateInScope resolves a key expression in the invocation scope
 func (ic *ivContext) InterpolateInScope(expr string, allowMethods bool) dgo.Value {
 	key := api.NewKey(expr)
-	if val := ic.Scope().Get(key.Root()); val != nil {
+	root := key.Root()
+	if val := ic.Scope().Get(root); val != nil {
+		if util.ContainsString(ic.varStack, root) {
+			panic(fmt.Errorf(`recursive interpolation detected in [%s]`, strings.Join(ic.varStack, `, `)))
+		}
+		ic.varStack = append(ic.varStack, root)
+		defer func() {
+			ic.varStack = ic.varStack[:len(ic.varStack)-1]
+		}()
 		val, _ = ic.doInterpolate(val, allowMethods)
 		return key.Dig(ic, val)
 	}
diff --git a/session/invocation.go b/session/invocation.go
index e1233b8..9db53cd 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -32,6 +32,7 @@ const (
 type ivContext struct {
 	api.Session
 	nameStack []string
+	varStack  []string
 	scope     dgo.Keyed
 	luOpts    dgo.Map
 	strategy  api.MergeStrategy
@@ -249,13 +250,15 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 		})
 	}
 
-	v := ic.TopProvider()(ic.ServerContext(options), rootKey)
-	if v != nil {
-		dc := ic.ForData()
-		v = dc.Interpolate(v, true)
-		v = key.Dig(dc, v)
-	}
-	return v
+	return ic.WithKey(key, func() dgo.Value {
+		v := ic.TopProvider()(ic.ServerContext(options), rootKey)
+		if v != nil {
+			dc := ic.ForData()
+			v = dc.Interpolate(v, true)
+			v = key.Dig(dc, v)
+		}
+		return v
+	})
 }
 
 func (ic *ivContext) WithKey(key api.Key, actor dgo.Producer) dgo.Value {
-- 
2.43.0


From 5613570035af762eacf9db80bffe4a8a2587f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 02/30] fix: release the config lock when loading a hiera
 config fails so that later lookups don't hang

---
 session/invocation.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 9db53cd..108f1ed 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -83,28 +83,36 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 
 	lc := hieraLockPrefix + configPath
 
-	myLock := sync.RWMutex{}
-	myLock.Lock()
-
 	var conf api.Config
-	if lv, loaded := sc.LoadOrStore(lc, &myLock); loaded {
-		// myLock was not stored so unlock it
-		myLock.Unlock()
+	for conf == nil {
+		myLock := sync.RWMutex{}
+		myLock.Lock()
+
+		if lv, loaded := sc.LoadOrStore(lc, &myLock); loaded {
+			// myLock was not stored so unlock it
+			myLock.Unlock()
 
-		if lock, ok := lv.(*sync.RWMutex); ok {
-			// The loaded value is a lock. Wait for new config to be stored in place of
-			// this lock
+			// The loaded value is a lock. Wait for the new config to be stored. If no config was stored, then
+			// the load failed and a new attempt must be made.
+			lock := lv.(*sync.RWMutex)
 			lock.RLock()
-			val, _ := sc.Load(cp)
-			conf = val.(api.Config)
+			if val, ok := sc.Load(cp); ok {
+				conf = val.(api.Config)
+			}
 			lock.RUnlock()
 		} else {
-			conf = lv.(api.Config)
+			func() {
+				defer func() {
+					if conf == nil {
+						// Load failed. Drop the lock so that subsequent attempts can try again
+						sc.Delete(lc)
+					}
+					myLock.Unlock()
+				}()
+				conf = config.New(configPath)
+				sc.Store(cp, conf)
+			}()
 		}
-	} else {
-		conf = config.New(configPath)
-		sc.Store(cp, conf)
-		myLock.Unlock()
 	}
 	rc := Resolve(ic, conf, moduleName)
 	ic.configs[configPath] = rc
-- 
2.43.0


From ded9c245de1413ff2baf0a2283951bcc9dca5e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 03/30] fix: pass the provider context, not the invocation, to
 data_dig functions

---
 internal/datadigprovider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datadigprovider.go b/internal/datadigprovider.go
index 9f621d3..72384d4 100644
--- a/internal/datadigprovider.go
+++ b/internal/datadigprovider.go
@@ -44,7 +44,7 @@ func (dh *dataDigProvider) loadFunction(ic api.Invocation) (pf hiera.DataDig) {
 	he := dh.hierarchyEntry
 	if f, ok := ic.LoadFunction(he); ok {
 		return func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
-			return f.(dgo.Function).Call(vf.Values(ic, key))[0]
+			return f.(dgo.Function).Call(vf.MutableValues(pc, key))[0]
 		}
 	}
 	ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, he.Function().Name()) })
-- 
2.43.0


From 1462d0ce5fe65dae3395f3a8de493b97f3b11f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 04/30] fix: don't parse the root segment of a key a second
 time in ConfigLookupKey and MuxLookupKey

---
 api/key.go                  | 6 ++++++
 provider/configlookupkey.go | 2 +-
 provider/muxlookupkey.go    | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/key.go b/api/key.go
index 5104384..4b34273 100644
--- a/api/key.go
+++ b/api/key.go
@@ -48,6 +48,12 @@ func NewKey(str string) Key {
 	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
 }
 
+// NewRootKey returns a Key with one single part. The part equals the given string verbatim, i.e. no parsing
+// takes place
+func NewRootKey(root string) Key {
+	return &key{root, []interface{}{root}}
+}
+
 var keyType = tf.NewNamed(`hiera.key`,
 	func(v dgo.Value) dgo.Value {
 		return NewKey(v.String())
diff --git a/provider/configlookupkey.go b/provider/configlookupkey.go
index 21139f2..d2abd51 100644
--- a/provider/configlookupkey.go
+++ b/provider/configlookupkey.go
@@ -20,7 +20,7 @@ func ConfigLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 func ConfigLookupKeyAt(sc api.ServerContext, configPath, key, moduleName string) dgo.Value {
 	ic := sc.Invocation()
 	cfg := ic.Config(configPath, moduleName)
-	k := api.NewKey(key)
+	k := api.NewRootKey(key)
 	if ic.LookupOptionsMode() {
 		return cfg.LookupOptions(k)
 	}
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 02995bf..61bf7c3 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -43,7 +43,7 @@ func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc = sc.ForData()
 	args.Set(0, sc)
 	ic = sc.Invocation()
-	return ic.WithLookup(api.NewKey(key), func() dgo.Value {
+	return ic.WithLookup(api.NewRootKey(key), func() dgo.Value {
 		ic.SetMergeStrategy(sc.Option(`merge`), luOpts)
 		return ic.LookupAndConvertData(func() dgo.Value {
 			return ic.MergeStrategy().MergeLookup(spv, ic, luFunc)
-- 
2.43.0


From 282e0a413413a16e8972a6b97be6be7244568d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 05/30] fix: treat a quoted key segment as a string regardless
 of its position

---
 api/key.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/api/key.go b/api/key.go
index 4b34273..1d46fac 100644
--- a/api/key.go
+++ b/api/key.go
@@ -45,7 +45,7 @@ type (
 // NewKey parses the given string into a Key
 func NewKey(str string) Key {
 	b := bytes.NewBufferString(``)
-	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
+	return &key{str, parseUnquoted(b, str, str, []interface{}{}, false)}
 }
 
 // NewRootKey returns a Key with one single part. The part equals the given string verbatim, i.e. no parsing
@@ -151,8 +151,13 @@ func (k *key) String() string {
 	return k.Type().(dgo.NamedType).ValueString(k)
 }
 
-func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []interface{} {
+// parseUnquoted parses the unquoted remainder of a key. The quoted argument is true when some of the segment that
+// is being parsed was quoted. Such a segment is always a string.
+func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}, quoted bool) []interface{} {
 	mungedPart := func(ix int, part string) interface{} {
+		if quoted {
+			return part
+		}
 		if i, err := strconv.ParseInt(part, 10, 32); err == nil {
 			if ix == 0 {
 				panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
@@ -172,6 +177,7 @@ func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []int
 		case '.':
 			parts = append(parts, mungedPart(len(parts), b.String()))
 			b.Reset()
+			quoted = false
 		default:
 			_, _ = b.WriteRune(c)
 		}
@@ -185,7 +191,7 @@ func parseQuoted(b *bytes.Buffer, q rune, key, part string, parts []interface{})
 			if i == len(part)-1 {
 				return append(parts, b.String())
 			}
-			return parseUnquoted(b, key, part[i+1:], parts)
+			return parseUnquoted(b, key, part[i+1:], parts, true)
 		}
 		_, _ = b.WriteRune(c)
 	}
-- 
2.43.0


From 349ebf40218f069429053cb71b80319e6fdf8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 06/30] fix: don't let concurrent REST requests share the
 backing array of the variables slice

---
 hieraserver/rest/rest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index da49da3..69eb3dd 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -133,7 +133,8 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 		opts.Merge = params.Get(`merge`)
 		opts.Type = params.Get(`type`)
-		opts.Variables = append(opts.Variables, params[`var`]...)
+		// the slice in cmdOpts is shared by all requests so ensure that append makes a copy
+		opts.Variables = append(opts.Variables[:len(opts.Variables):len(opts.Variables)], params[`var`]...)
 		opts.RenderAs = `json`
 		out := bytes.Buffer{}
 		if hiera.LookupAndRender(ctx, &opts, []string{key}, &out) {
-- 
2.43.0


From 1a39312b0dbc0f40d5933126e7a294be913a10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 07/30] fix: don't share an unsynchronized map of module
 providers between concurrent lookups

---
 provider/modulelookupkey.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 1b9f94a..4c6e4f8 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -27,11 +27,12 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	if ci := strings.Index(key, `::`); ci > 0 {
 		modName := strings.ToLower(key[:ci])
 		var mp dgo.Function
-		mpm := moduleProviders(sc)
-		if f := mpm.Get(modName); f != nil {
+		cacheKey := moduleProviderPrefix + modName
+		if f, ok := sc.CachedValue(cacheKey); ok {
 			mp = f.(dgo.Function)
 		} else {
-			mp = loadModuleProvider(sc.Invocation(), mpm, modName)
+			mp = loadModuleProvider(sc.Invocation(), modName)
+			sc.Cache(cacheKey, mp)
 		}
 		iv := sc.Invocation()
 		return iv.WithModule(modName, func() dgo.Value {
@@ -45,20 +46,13 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	return nil
 }
 
-func moduleProviders(sc api.ServerContext) dgo.Map {
-	var mp dgo.Map
-	if c, ok := sc.CachedValue(`hiera::moduleproviders`); ok {
-		mp = c.(dgo.Map)
-	} else {
-		mp = vf.MutableMap()
-		sc.Cache(`hiera::moduleproviders`, mp)
-	}
-	return mp
-}
+// moduleProviderPrefix prefixes the cache key used when caching the provider of a module. Each provider has its own
+// key because the values stored in the cache are shared by concurrent invocations.
+const moduleProviderPrefix = `hiera::moduleprovider::`
 
 var notFoundLookupKeyFunc = vf.Value(func(pc hiera.ProviderContext, key string) dgo.Value { return nil }).(dgo.Function)
 
-func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.Function {
+func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 	var mp dgo.Function = notFoundLookupKeyFunc
 	if modulePath, ok := ic.SessionOptions().Get(ModulePath).(dgo.String); ok {
 		for _, path := range filepath.SplitList(modulePath.GoString()) {
@@ -68,7 +62,6 @@ func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.F
 			}
 		}
 	}
-	mpm.Put(moduleName, mp)
 	return mp
 }
 
-- 
2.43.0


From 5d244aa809d8d4b5027f227bb478cdd2b363c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 08/30] fix: remove duplicates in the unique merge also when
 only one of several variants is found

---
 merge/strategy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge/strategy.go b/merge/strategy.go
index 677184b..0ed25b1 100644
--- a/merge/strategy.go
+++ b/merge/strategy.go
@@ -164,7 +164,7 @@ func (d *unique) mergeSingle(rv reflect.Value, vf func(l interface{}) dgo.Value)
 
 func (d *unique) convertValue(v dgo.Value) dgo.Value {
 	if av, ok := v.(dgo.Array); ok {
-		return av.Flatten()
+		return av.Flatten().Unique()
 	}
 	return vf.Values(v)
 }
-- 
2.43.0


From dbff019fb4f11c3f0cef68c1acd42445412b9405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 09/30] fix: redact explanations of lookups that are converted
 to Sensitive

---
 session/invocation.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 108f1ed..768320c 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -21,6 +21,9 @@ import (
 const hieraConfigsPrefix = `HieraConfig:`
 const hieraLockPrefix = `HieraLock:`
 
+// redactedText is what an explainer will see instead of a sensitive value
+const redactedText = `value redacted`
+
 type invocationMode byte
 
 const (
@@ -292,6 +295,15 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 	}
 }
 
+// redact returns the given value unless the invocation is redacted, in which case a text stating that the value has
+// been redacted is returned.
+func (ic *ivContext) redact(value dgo.Value) dgo.Value {
+	if ic.redacted {
+		return vf.String(redactedText)
+	}
+	return value
+}
+
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc := ic.scope
 	ic.scope = scope
@@ -322,6 +334,9 @@ func (ic *ivContext) WithInterpolation(expr string, producer dgo.Producer) dgo.V
 		return producer()
 	}
 	defer ic.explainer.Pop()
+	if ic.redacted {
+		expr = redactedText
+	}
 	ic.explainer.PushInterpolation(expr)
 	return producer()
 }
@@ -438,13 +453,13 @@ func (ic *ivContext) ReportLocationNotFound() {
 
 func (ic *ivContext) ReportFound(key interface{}, value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptFound(key, value)
+		ic.explainer.AcceptFound(key, ic.redact(value))
 	}
 }
 
 func (ic *ivContext) ReportMergeResult(value dgo.Value) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptMergeResult(value)
+		ic.explainer.AcceptMergeResult(ic.redact(value))
 	}
 }
 
-- 
2.43.0


From 431689b7d82e125bae386e1ebe1490ef74eae05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:14 +0000
Subject: [PATCH 10/30] fix: don't treat the environment as lookup options

---
 provider/environment.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/provider/environment.go b/provider/environment.go
index 7f02a3a..6d3541b 100644
--- a/provider/environment.go
+++ b/provider/environment.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
+	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
 )
 
@@ -13,7 +14,11 @@ import (
 // "env" in which case all current environment variables will be returned as an OrderedMap, or
 // prefixed with "env::" in which case the rest of the key is interpreted as the environment variable
 // to look for.
-func Environment(_ hiera.ProviderContext, key string) dgo.Value {
+func Environment(pc hiera.ProviderContext, key string) dgo.Value {
+	if sc, ok := pc.(api.ServerContext); ok && sc.Invocation().LookupOptionsMode() {
+		// The environment contains data. It doesn't contain lookup options
+		return nil
+	}
 	if key == `env` {
 		env := os.Environ()
 		em := vf.MapWithCapacity(len(env))
-- 
2.43.0


From 03c6615d7dc77465d2e18b1dbe2bd104bd718207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 11/30] fix: close the connection after each plugin call

---
 session/pluginloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 72b724e..2c5ed0a 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -336,6 +336,8 @@ func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
 	client := http.Client{
 		Timeout: time.Second * 5,
 		Transport: &http.Transport{
+			// The transport isn't reused so an idle connection would never be closed
+			DisableKeepAlives: true,
 			Dial: func(_, _ string) (net.Conn, error) {
 				return net.Dial(p.network, p.addr)
 			},
-- 
2.43.0


From 4228b2d73835157d0fac9feebb4706a5a2709aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 12/30] fix: don't let a nested lookup alter merge strategy and
 lookup options of the outer lookup

---
 session/invocation.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index 768320c..2a4286b 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -414,9 +414,8 @@ func (ic *ivContext) ForConfig() api.Invocation {
 }
 
 func (ic *ivContext) ForData() api.Invocation {
-	if ic.DataMode() {
-		return ic
-	}
+	// A copy is needed also when the invocation already is in data mode. A nested lookup must not alter the merge
+	// strategy or the lookup options of the lookup that it is nested in.
 	lic := *ic
 	if !(lic.explainer == nil || !lic.explainer.OnlyOptions()) {
 		lic.explainer = nil
-- 
2.43.0


From 2844c38ca186e6bd4f5c415fa6b468eb48c0e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:18 +0000
Subject: [PATCH 13/30] fix: restore the scope when a function called by
 DoWithScope panics

---
 session/invocation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 2a4286b..a6e2ec4 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -306,9 +306,11 @@ func (ic *ivContext) redact(value dgo.Value) dgo.Value {
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc := ic.scope
+	defer func() {
+		ic.scope = sc
+	}()
 	ic.scope = scope
 	doer()
-	ic.scope = sc
 }
 
 func (ic *ivContext) Scope() dgo.Keyed {
-- 
2.43.0


From 503aff8e0566c0eec33c8b6b0bcf907f52a8dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:20 +0000
Subject: [PATCH 14/30] fix: reap plugin processes that are killed and don't
 leak goroutines doing so

---
 session/pluginloader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 2c5ed0a..612b1ab 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -156,6 +156,7 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	defer func() {
 		if r := recover(); r != nil {
 			_ = cmd.Process.Kill()
+			_, _ = cmd.Process.Wait() // don't leave a zombie behind
 			panic(r)
 		}
 	}()
@@ -164,7 +165,7 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
-	metaCh := make(chan interface{})
+	metaCh := make(chan interface{}, 1) // buffered, so that a late sender never blocks
 	p.wGroup.Add(1)
 	go awaitMetaData(metaCh, cmdOut, &p.wGroup)
 
@@ -208,6 +209,7 @@ func (p *plugin) kill() {
 	p.lock.Lock()
 	process := p.process
 	if process == nil {
+		p.lock.Unlock()
 		return
 	}
 
@@ -223,7 +225,7 @@ func (p *plugin) kill() {
 	}
 
 	if graceful {
-		done := make(chan bool)
+		done := make(chan bool, 1) // buffered, so that a late sender never blocks
 		go func() {
 			_, _ = process.Wait()
 			done <- true
@@ -236,6 +238,7 @@ func (p *plugin) kill() {
 	} else {
 		// Graceful terminate failed. Just kill it!
 		_ = process.Kill()
+		_, _ = process.Wait()
 	}
 }
 
-- 
2.43.0


From ed9a12463404925649285274ab8c7162b6f5fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 15/30] fix: search the files matching a glob in alphanumerical
 order

---
 config/glob.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/glob.go b/config/glob.go
index 7a5ffe3..367a020 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"github.com/bmatcuk/doublestar"
 	"github.com/lyraproj/dgo/dgo"
@@ -64,6 +65,9 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
 	rp := filepath.Join(dataDir, r.String())
 	matches, _ := doublestar.Glob(rp)
+
+	// doublestar.Glob uses directory order which is unpredictable
+	sort.Strings(matches)
 	ls := make([]api.Location, len(matches))
 	for i, m := range matches {
 		ls[i] = &path{g.Original(), m, true}
-- 
2.43.0


From 7a2c9b29d869c40e08ecb2626e9a287478e0e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 16/30] fix: serialize function loading so that concurrent
 first uses of a plugin don't fail

---
 session/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/session/session.go b/session/session.go
index 2ee9d34..89de8f4 100644
--- a/session/session.go
+++ b/session/session.go
@@ -32,6 +32,9 @@ type session struct {
 	vars     map[string]interface{}
 	scope    dgo.Keyed
 	loader   dgo.Loader
+
+	// loadLock serializes the use of the loader. Its namespaces cannot be created concurrently
+	loadLock sync.Mutex
 }
 
 const hieraCacheKey = `Hiera::Cache`
@@ -154,6 +157,9 @@ func (s *session) Loader() dgo.Loader {
 }
 
 func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
+	s.loadLock.Lock()
+	defer s.loadLock.Unlock()
+
 	n := he.Function().Name()
 	l := s.Loader()
 	fn, ok = l.Namespace(`function`).Get(n).(dgo.Function)
-- 
2.43.0


From 309c89841644927c9fba354a15d8b94fed30af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 17/30] fix: subject a nested lookup to its own lookup options
 instead of those of the outer lookup

---
 session/invocation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index a6e2ec4..f981f37 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -262,7 +262,14 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 	}
 
 	return ic.WithKey(key, func() dgo.Value {
-		v := ic.TopProvider()(ic.ServerContext(options), rootKey)
+		sc := ic.ServerContext(options)
+		if ic.mode == dataMode {
+			// This is a nested lookup. It is subjected to its own lookup options, not to those of the outer lookup
+			lic := *ic
+			lic.mode = topLevelMode
+			sc = lic.ServerContext(options)
+		}
+		v := ic.TopProvider()(sc, rootKey)
 		if v != nil {
 			dc := ic.ForData()
 			v = dc.Interpolate(v, true)
-- 
2.43.0


From f3674b1b622030e7e3c4f83d03ab468ad970fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 18/30] fix: don't treat scope variables and yaml data as
 lookup options

---
 provider/scopelookupkey.go | 4 ++++
 provider/yamllookupkey.go  | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/provider/scopelookupkey.go b/provider/scopelookupkey.go
index f910525..936a8f8 100644
--- a/provider/scopelookupkey.go
+++ b/provider/scopelookupkey.go
@@ -12,5 +12,9 @@ func ScopeLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	if !ok {
 		return nil
 	}
+	if key != `lookup_options` && sc.Invocation().LookupOptionsMode() {
+		// A scope variable is data. It doesn't contain the lookup options for the key that it is named by
+		return nil
+	}
 	return sc.Invocation().Scope().Get(key)
 }
diff --git a/provider/yamllookupkey.go b/provider/yamllookupkey.go
index b0e8858..2b81d12 100644
--- a/provider/yamllookupkey.go
+++ b/provider/yamllookupkey.go
@@ -25,5 +25,11 @@ func YamlLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 		sc.Cache(YamlDataKey, data)
 	}
 	hash, _ := data.(dgo.Map)
+	if sc.Invocation().LookupOptionsMode() {
+		// Never return the data found for the key as lookup options for that key
+		if hash, ok = hash.Get(`lookup_options`).(dgo.Map); !ok {
+			return nil
+		}
+	}
 	return hash.Get(key)
 }
-- 
2.43.0


From b0448c4e3a0eee1fb17323611f1acfbb5d922d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:01 +0000
Subject: [PATCH 19/30] fix: redact explanations of conversions to a
 parameterized sensitive type

---
 session/invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index f981f37..192a5cf 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -198,7 +198,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 	convertToType, convertToArgs := ic.extractConversion()
 
 	var v dgo.Value
-	if typ.Sensitive.Equals(convertToType) {
+	if convertToType != nil && typ.Sensitive.Assignable(convertToType) {
 		ic.DoRedacted(func() { v = fn() })
 	} else {
 		v = fn()
-- 
2.43.0


From 5a2f10d99c64b49cc1119ddb666288dd1a4006f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:03 +0000
Subject: [PATCH 20/30] fix: pass the arguments of convert_to to the conversion
 one by one

---
 session/invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 192a5cf..485d80a 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -206,7 +206,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 
 	if v != nil && convertToType != nil {
 		if convertToArgs != nil {
-			v = vf.Arguments(vf.Values(v).WithAll(convertToArgs))
+			v = vf.ArgumentsFromArray(vf.Values(v).WithAll(convertToArgs))
 		}
 		v = vf.New(convertToType, v)
 	}
-- 
2.43.0


From 7a277f67241d30f4fa4d2d3698c3732b7a976450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 21/30] fix: replace cached values atomically

Two concurrent calls to Cache for the same key could both return the same replaced value, and a value stored by
CacheAll in between could be replaced without being returned.
---
 session/serverctx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/session/serverctx.go b/session/serverctx.go
index ab8c1c4..bd443d9 100644
--- a/session/serverctx.go
+++ b/session/serverctx.go
@@ -1,6 +1,8 @@
 package session
 
 import (
+	"sync"
+
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
@@ -19,8 +21,13 @@ func (c *serverCtx) Explain(messageProducer func() string) {
 	c.invocation.ReportText(messageProducer)
 }
 
+// cacheLock ensures that a cached value is returned to precisely one of those that replace it.
+var cacheLock sync.Mutex
+
 func (c *serverCtx) Cache(key string, value dgo.Value) dgo.Value {
 	cache := c.invocation.TopProviderCache()
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	if old, loaded := cache.LoadOrStore(key, value); loaded {
 		// Replace old value
 		cache.Store(key, value)
@@ -31,6 +38,8 @@ func (c *serverCtx) Cache(key string, value dgo.Value) dgo.Value {
 
 func (c *serverCtx) CacheAll(hash dgo.Map) {
 	cache := c.invocation.TopProviderCache()
+	cacheLock.Lock()
+	defer cacheLock.Unlock()
 	hash.EachEntry(func(e dgo.MapEntry) {
 		cache.Store(e.Key().String(), e.Value())
 	})
-- 
2.43.0


From cf7207d223e91b399e0fa4ff4cedc624dd1b55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 22/30] fix: don't disclose sensitive values in structured
 explanations

A sensitive value that another value obtains using an alias was serialized in clear text when the explanation was
rendered as yaml or json.
---
 explain/explainer.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/explain/explainer.go b/explain/explainer.go
index e1e8603..308cb50 100644
--- a/explain/explainer.go
+++ b/explain/explainer.go
@@ -121,7 +121,7 @@ func initMap(en explainNode) dgo.Map {
 		m.Put(`key`, k)
 	}
 	if v := en.value(); v != nil {
-		m.Put(`value`, v)
+		m.Put(`value`, redact(v))
 	}
 	if ts := en.texts(); len(ts) > 0 {
 		m.Put(`texts`, vf.Array(ts))
@@ -129,6 +129,24 @@ func initMap(en explainNode) dgo.Map {
 	return m
 }
 
+// redact returns the given value with all sensitive values that it contains replaced by their string form, which
+// doesn't disclose them.
+func redact(v dgo.Value) dgo.Value {
+	switch v := v.(type) {
+	case dgo.Sensitive:
+		return vf.String(v.String())
+	case dgo.Array:
+		return v.Map(func(e dgo.Value) interface{} { return redact(e) })
+	case dgo.Map:
+		m := vf.MapWithCapacity(v.Len())
+		v.EachEntry(func(e dgo.MapEntry) {
+			m.Put(redact(e.Key()), redact(e.Value()))
+		})
+		return m
+	}
+	return v
+}
+
 func keyToString(k interface{}) string {
 	switch k := k.(type) {
 	case string:
-- 
2.43.0


From a19604e1a77133315a75780d0fe00fb6630a25e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:39 +0000
Subject: [PATCH 23/30] fix: redact texts that provider functions report for
 sensitive values

---
 session/invocation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index 485d80a..9a57348 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -491,6 +491,10 @@ func (ic *ivContext) ReportNotFound(key interface{}) {
 
 func (ic *ivContext) ReportText(messageProducer func() string) {
 	if ic.explainer != nil {
-		ic.explainer.AcceptText(messageProducer())
+		text := messageProducer()
+		if ic.redacted {
+			text = redactedText
+		}
+		ic.explainer.AcceptText(text)
 	}
 }
-- 
2.43.0


From 4948b6a9c34c749b9bfd9e042d6b79c7c4ef562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 24/30] fix: freeze the options of a hierarchy entry

Interpolation freezes values that it creates. Arrays nested in options of the
configuration were shared by these, so concurrent invocations raced to freeze them.
---
 config/entry.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config/entry.go b/config/entry.go
index 3396181..d21b748 100644
--- a/config/entry.go
+++ b/config/entry.go
@@ -64,6 +64,8 @@ func (e *entry) initialize(name string, entryHash dgo.Map) {
 		v := me.Value()
 		if ks == `options` {
 			e.options = v.(dgo.Map)
+			// shared by everything that is resolved from this entry
+			e.options.Freeze()
 			e.options.EachKey(func(optKey dgo.Value) {
 				if util.ContainsString(ReservedOptionKeys, optKey.String()) {
 					panic(
-- 
2.43.0


From 91bf2012966f6dc3257339964b289cb459170cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:11 +0000
Subject: [PATCH 25/30] fix: don't keep a plugin whose list of functions is
 malformed

The process was ended but remained registered, so a later lookup did not start
the plugin again.
---
 session/pluginloader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 612b1ab..03be84c 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -186,13 +186,15 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	p.wGroup.Add(1)
 	go ignoreOut(cmdOut, &p.wGroup)
 
+	p.initialize(meta)
+	functions := p.functionMap()
+
 	if r.plugins == nil {
 		r.plugins = make(map[string]*plugin)
 	}
-	p.initialize(meta)
 	r.plugins[path] = p
 
-	return p.functionMap()
+	return functions
 }
 
 func initCmd(opts dgo.Map, path string) *exec.Cmd {
-- 
2.43.0


From f21b6184353e23a73eb4f2d065ef32bd3a9c37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:20 +0000
Subject: [PATCH 26/30] fix: escape the name of a plugin function in the URL of
 a call

A name with characters such as ? or % called another function.
---
 session/pluginloader.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 03be84c..38b7bc2 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -323,16 +323,10 @@ func makeOptions(pc hiera.ProviderContext) url.Values {
 }
 
 func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
-	var ad *url.URL
-	var err error
-
+	// The name can contain characters that have a meaning in an URL
+	ad := &url.URL{Scheme: `http`, Host: p.addr, Path: `/` + luType + `/` + name}
 	if p.network == pluginTransportUnix {
-		ad, err = url.Parse(fmt.Sprintf(`http://%s/%s/%s`, p.network, luType, name))
-	} else {
-		ad, err = url.Parse(fmt.Sprintf(`http://%s/%s/%s`, p.addr, luType, name))
-	}
-	if err != nil {
-		panic(err)
+		ad.Host = p.network
 	}
 	if len(params) > 0 {
 		ad.RawQuery = params.Encode()
-- 
2.43.0


From 6e13a01a172dd8175e2b047a1d4934836775a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:25 +0000
Subject: [PATCH 27/30] fix: don't wait for processes that a plugin left behind
 when it is stopped

A process started by a plugin inherits its stdout and stderr. Stopping the
plugin waited for those to be closed and hence for as long as that process
lived. The pipes are now closed a second after the plugin ended.
---
 session/pluginloader.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 38b7bc2..534e469 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -30,6 +31,7 @@ type plugin struct {
 	lock      sync.Mutex
 	wGroup    sync.WaitGroup
 	process   *os.Process
+	pipes     []io.Closer
 	path      string
 	addr      string
 	network   string
@@ -69,7 +71,7 @@ func copyErrToLog(path string, cmdErr io.Reader, wGroup *sync.WaitGroup) {
 	for {
 		line, pfx, err := reader.ReadLine()
 		if err != nil {
-			if err != io.EOF {
+			if err != io.EOF && !errors.Is(err, os.ErrClosed) {
 				log.Errorf(`error reading stderr of plugin %s: %s`, path, err.Error())
 			}
 			return
@@ -97,8 +99,7 @@ func ignoreOut(cmdOut io.Reader, wGroup *sync.WaitGroup) {
 	defer wGroup.Done()
 	toss := make([]byte, 0x1000)
 	for {
-		_, err := cmdOut.Read(toss)
-		if err == io.EOF {
+		if _, err := cmdOut.Read(toss); err != nil {
 			return
 		}
 	}
@@ -161,7 +162,7 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 		}
 	}()
 
-	p := &plugin{path: path, process: cmd.Process}
+	p := &plugin{path: path, process: cmd.Process, pipes: []io.Closer{cmdErr, cmdOut}}
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
@@ -216,7 +217,11 @@ func (p *plugin) kill() {
 	}
 
 	defer func() {
+		// A process started by the plugin may have inherited the pipes and keep them open after the plugin ended. Give
+		// the readers time to get what the plugin wrote and then let go of the pipes.
+		closer := time.AfterFunc(time.Second, p.closePipes)
 		p.wGroup.Wait()
+		closer.Stop()
 		p.process = nil
 		p.lock.Unlock()
 	}()
@@ -244,6 +249,12 @@ func (p *plugin) kill() {
 	}
 }
 
+func (p *plugin) closePipes() {
+	for _, pipe := range p.pipes {
+		_ = pipe.Close()
+	}
+}
+
 // initialize the plugin with the given meta-data
 func (p *plugin) initialize(meta map[string]interface{}) {
 	v, ok := meta[`version`].(float64)
-- 
2.43.0


From 73786c1de782e2108bc6ed864663de9b4ca1ee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:13 +0000
Subject: [PATCH 28/30] fix: don't redirect REST lookups of keys with path
 segments

A http.ServeMux redirects when the path contains // or /../ and a key with a
newline didn't match at all.
---
 hieraserver/rest/rest.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 69eb3dd..f1a7528 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -70,7 +70,7 @@ func newCommand() *cobra.Command {
 	return cmd
 }
 
-var keyPattern = regexp.MustCompile(`^/lookup/(.*)$`)
+var keyPattern = regexp.MustCompile(`(?s)^/lookup/(.*)$`)
 
 func startServer(_ *cobra.Command, _ []string) {
 	configOptions := map[string]interface{}{
@@ -145,9 +145,8 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 	}
 
-	router := http.NewServeMux()
-	router.HandleFunc("/lookup/", doLookup)
-	return router
+	// The key is everything that follows "/lookup/". A http.ServeMux would redirect requests where it contains "//" or "/../"
+	return http.HandlerFunc(doLookup)
 }
 
 func loadCertPool(pemFile string) (*x509.CertPool, error) {
-- 
2.43.0


From 163e4845e00e5f4b14623f9526a442ed998fdcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:22 +0000
Subject: [PATCH 29/30] fix: a module isn't hidden by a file or directory
 without configuration whose name differs in case only

---
 provider/modulelookupkey.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 4c6e4f8..123590e 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -86,18 +86,18 @@ func loadModule(path, moduleName string) dgo.Function {
 			continue
 		}
 		if !fi.IsDir() {
-			break
+			continue
 		}
 		configPath := filepath.Join(path, fi.Name(), config.FileName)
 		cf, err := os.Lstat(configPath)
 		if err != nil {
 			if os.IsNotExist(err) {
-				break
+				continue
 			}
 			panic(err)
 		}
 		if cf.IsDir() {
-			break
+			continue
 		}
 		return loadHieraConfig(configPath, moduleName)
 	}
-- 
2.43.0


From 92131e446fb6da6c83d3bc7297e5211a8c2826cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:09 +0000
Subject: [PATCH 30/30] fix: yaml2json reports keys that are not strings
 instead of panicking

---
 yaml2json/main.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/yaml2json/main.go b/yaml2json/main.go
index a8c625e..d92f01c 100644
--- a/yaml2json/main.go
+++ b/yaml2json/main.go
@@ -3,6 +3,7 @@ package main
 
 import (
 	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"log"
 	"os"
@@ -10,20 +11,35 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
-func stringKeys(x interface{}) interface{} {
+func stringKeys(x interface{}) (interface{}, error) {
+	var err error
 	switch x := x.(type) {
 	case map[interface{}]interface{}:
 		m := map[string]interface{}{}
 		for k, v := range x {
-			m[k.(string)] = stringKeys(v)
+			s, ok := k.(string)
+			if !ok {
+				return nil, fmt.Errorf(`the key %v is not a string`, k)
+			}
+			if m[s], err = stringKeys(v); err != nil {
+				return nil, err
+			}
+		}
+		return m, nil
+	case map[string]interface{}:
+		for k, v := range x {
+			if x[k], err = stringKeys(v); err != nil {
+				return nil, err
+			}
 		}
-		return m
 	case []interface{}:
 		for i, v := range x {
-			x[i] = stringKeys(v)
+			if x[i], err = stringKeys(v); err != nil {
+				return nil, err
+			}
 		}
 	}
-	return x
+	return x, nil
 }
 
 func main() {
@@ -31,10 +47,12 @@ func main() {
 	if err == nil {
 		var body interface{}
 		if err = yaml.Unmarshal(data, &body); err == nil {
-			var bytes []byte
-			if bytes, err = json.MarshalIndent(stringKeys(body), ``, ` `); err == nil {
-				if _, err = os.Stdout.Write(bytes); err == nil {
-					return
+			if body, err = stringKeys(body); err == nil {
+				var bytes []byte
+				if bytes, err = json.MarshalIndent(body, ``, ` `); err == nil {
+					if _, err = os.Stdout.Write(bytes); err == nil {
+						return
+					}
 				}
 			}
 		}
-- 
2.43.0

