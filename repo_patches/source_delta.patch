From c6340ed559184b53b0434bc1ef495d634229058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:30 +0000
Subject: [PATCH 01/29] fix: MatchResource hangs on an inner '*' and lets
 ':param' swallow the action

A '*' followed by anything never advanced the pattern index, so matching
'/users/* GET' looped forever as soon as the next character occurred in the
value. ':param' ran up to the next '/' of the pattern, so a trailing parameter
swallowed ' ACTION' ('user/:id create' matched 'user/1 delete'), and it accepted
a '/' as its first character ('/a/:id' matched '/a//b').
---
 utils/str.go | 80 ++++++++++++++++++++++------------------------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index fc3aced..746dab3 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -30,61 +30,47 @@ func ToInt64(s string) uint64 {
 	return ft.Sum64()
 }
 
+// MatchResource reports whether the whole value matches the pattern: '*' stands for any
+// (possibly empty) run of characters, ':name' (up to the next '/' or ' ' of the pattern)
+// stands for a non-empty run of characters other than '/', everything else for itself.
 func MatchResource(value, pattern string) bool {
-	vIndex, pIndex := 0, 0
-	vLen, pLen := len(value), len(pattern)
-
-	for pIndex < pLen {
-		if pattern[pIndex] == '*' {
-			// If '*' is the last character in the pattern, it matches everything
-			if pIndex == pLen-1 {
-				return true
+	// Compare the literal prefix directly
+	for len(pattern) > 0 && pattern[0] != '*' && pattern[0] != ':' {
+		if len(value) == 0 || value[0] != pattern[0] {
+			return false
+		}
+		value, pattern = value[1:], pattern[1:]
+	}
+	// reach[i] tells if the part of the pattern seen so far can match value[:i]
+	reach := make([]bool, len(value)+1)
+	reach[0] = true
+	for pIndex := 0; pIndex < len(pattern); {
+		switch pattern[pIndex] {
+		case '*':
+			for i := 1; i < len(reach); i++ {
+				reach[i] = reach[i] || reach[i-1]
 			}
-
-			// Find the next character in pattern after '*'
-			nextChar := pattern[pIndex+1]
-
-			// If the next character is '*', skip it
-			if nextChar == '*' {
+			pIndex++
+		case ':':
+			prev := reach[0]
+			reach[0] = false
+			for i := 1; i < len(reach); i++ {
+				prev, reach[i] = reach[i], value[i-1] != '/' && (prev || reach[i-1])
+			}
+			// Move pattern index to the end of the parameter name
+			pIndex++
+			for pIndex < len(pattern) && pattern[pIndex] != '/' && pattern[pIndex] != ' ' {
 				pIndex++
-				continue
 			}
-
-			// Find the next occurrence of the character after '*' in the value
-			nextIndex := strings.IndexByte(value[vIndex:], nextChar)
-
-			// If the character is not found, no match
-			if nextIndex == -1 {
-				return false
+		default:
+			for i := len(reach) - 1; i > 0; i-- {
+				reach[i] = reach[i-1] && value[i-1] == pattern[pIndex]
 			}
-
-			// Move the value index to the next occurrence of the character
-			vIndex += nextIndex
-		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
-			// If pattern part matches value part or is a parameter, move to the next parts
-			vIndex++
+			reach[0] = false
 			pIndex++
-			// If pattern part is a parameter, skip it in the value
-			if pattern[pIndex-1] == ':' {
-				// Find the end of the parameter segment
-				endIndex := pIndex
-				for endIndex < pLen && pattern[endIndex] != '/' {
-					endIndex++
-				}
-				// Skip the parameter segment in the value
-				for vIndex < vLen && value[vIndex] != '/' {
-					vIndex++
-				}
-				// Move pattern index to the end of the parameter segment
-				pIndex = endIndex
-			}
-		} else {
-			return false
 		}
 	}
-
-	// If both value and pattern are exhausted, return true
-	return vIndex == vLen && pIndex == pLen
+	return reach[len(value)]
 }
 
 // ToByte converts a string to a byte slice without memory allocation.
-- 
2.43.0


From 8c16839f7079790e4022471629b579574235a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:31 +0000
Subject: [PATCH 02/29] fix: v2 RemovePrincipalRole drops or nils out
 assignments it should keep

Kept assignments were written at their old index and the slice was cut to the
number of kept ones, so removing any but the last assignment lost others or left
nil entries that made every later check panic.
---
 v2/v2.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3533705..8150c44 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -112,7 +112,7 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
-	updatedRoles := make([]*PrincipalRole, len(a.userRoles))
+	updatedRoles := make([]*PrincipalRole, 0, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
 		if target.Principal != "" && pr.Principal != target.Principal {
@@ -132,16 +132,13 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 		}
 		return true
 	}
-	j := 0
-	for i, ur := range a.userRoles {
+	for _, ur := range a.userRoles {
 		if matches(ur) {
 			rolesRemoved = true
 			continue
 		}
-		j++
-		updatedRoles[i] = ur
+		updatedRoles = append(updatedRoles, ur)
 	}
-	updatedRoles = updatedRoles[:j]
 	if !rolesRemoved {
 		return fmt.Errorf("no matching roles found for the provided criteria")
 	}
-- 
2.43.0


From e0a7418bf06da144148b9a1ca5b0043f9ca31a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:31 +0000
Subject: [PATCH 03/29] fix: v2 returns resolved permissions and roles in maps
 already back in a pool

A concurrent check could clear or refill the map while the first one was still
reading it, deciding one principal's request with another's permissions.
---
 v2/v2.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 8150c44..8c27745 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -166,9 +166,7 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 }
 
 var (
-	scopedPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	globalPermissionsPool = utils.New(func() map[string]struct{} { return make(map[string]struct{}) })
-	checkedTenantsPool    = utils.New(func() map[string]bool { return make(map[string]bool) })
+	checkedTenantsPool = utils.New(func() map[string]bool { return make(map[string]bool) })
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
@@ -183,15 +181,12 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	globalPermissions := globalPermissionsPool.Get()
-	scopedPermissions := scopedPermissionsPool.Get()
+	// returned to the caller, hence not pooled
+	globalPermissions := make(map[string]struct{})
+	scopedPermissions := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedPermissions)
-	clear(globalPermissions)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedPermissions)
-		globalPermissionsPool.Put(globalPermissions)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
@@ -248,12 +243,11 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
 	}
-	scopedRoles := scopedPermissionsPool.Get()
+	// returned to the caller, hence not pooled
+	scopedRoles := make(map[string]struct{})
 	checkedTenants := checkedTenantsPool.Get()
-	clear(scopedRoles)
 	clear(checkedTenants)
 	defer func() {
-		scopedPermissionsPool.Put(scopedRoles)
 		checkedTenantsPool.Put(checkedTenants)
 	}()
 	var traverse func(current *Tenant) error
-- 
2.43.0


From 86aa06df3e7decc7da578b8c5434c9eea2f85a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 04/29] fix: v2 AddChildRole rejects acyclic role graphs as
 circular

A role reachable along two paths, or named twice in one call, was reported as a
circular dependency; only a path back to the parent is one.
---
 v2/role.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 05b01ba..ed63a17 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -92,12 +92,15 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 }
 
 func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) error {
-	visited := map[string]bool{parent: true}
+	visited := make(map[string]bool)
 	var dfs func(string) bool
 	dfs = func(role string) bool {
-		if visited[role] {
+		if role == parent {
 			return true
 		}
+		if visited[role] {
+			return false
+		}
 		visited[role] = true
 		for _, child := range dag.edges[role] {
 			if dfs(child) {
-- 
2.43.0


From 667f72b178e0404e9628c2fc860b6e763e83443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:13 +0000
Subject: [PATCH 05/29] fix: v2 role resolution cache serves stale and foreign
 entries

Resolved permissions and resolved child roles shared one cache keyed by role, so
after Can() a role's 'permissions' were role names, and Can() after Authorize()
compared permissions. Nothing invalidated it either: permissions, roles and child
roles added or removed after the first check of a role were ignored, so a revoked
permission stayed granted. Cache only the child roles, drop them when the graph
changes, and read permissions live.
---
 v2/role.go | 46 ++++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index ed63a17..5630c47 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -2,6 +2,7 @@ package v2
 
 import (
 	"fmt"
+	"maps"
 	"sync"
 )
 
@@ -62,7 +63,7 @@ type RoleDAG struct {
 	mu       sync.RWMutex
 	roles    map[string]*Role
 	edges    map[string][]string
-	resolved map[string]map[string]struct{}
+	resolved map[string]map[string]struct{} // child roles by role, until the graph changes
 }
 
 func NewRoleDAG() *RoleDAG {
@@ -79,6 +80,7 @@ func (dag *RoleDAG) AddRole(roles ...*Role) {
 	for _, role := range roles {
 		dag.roles[role.Name] = role
 	}
+	clear(dag.resolved)
 }
 
 func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
@@ -88,6 +90,7 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 		return err
 	}
 	dag.edges[parent] = append(dag.edges[parent], child...)
+	clear(dag.resolved)
 	return nil
 }
 
@@ -119,43 +122,27 @@ func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) e
 
 // ResolvePermissions to account for role expiry
 func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
-	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
-	visited := make(map[string]bool)
-	queue := []string{roleName}
 	result := make(map[string]struct{})
-	for len(queue) > 0 {
-		current := queue[0]
-		queue = queue[1:]
-		if visited[current] {
-			continue
-		}
-		visited[current] = true
-		role, exists := dag.roles[current]
-		if !exists {
-			continue
-		}
+	children := dag.ResolveChildRoles(roleName)
+	dag.mu.RLock()
+	defer dag.mu.RUnlock()
+	for name := range children {
+		role := dag.roles[name]
+		role.m.RLock()
 		for perm := range role.Permissions {
 			result[perm] = struct{}{}
 		}
-		queue = append(queue, dag.edges[current]...)
+		role.m.RUnlock()
 	}
-	dag.resolved[roleName] = result
 	return result
 }
 
 // ResolveChildRoles to account for role expiry
 func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
+	if children, found := dag.resolved[roleName]; found {
 		dag.mu.RUnlock()
-		return permissions
+		return maps.Clone(children)
 	}
 	dag.mu.RUnlock()
 	dag.mu.Lock()
@@ -170,13 +157,12 @@ func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 			continue
 		}
 		visited[current] = true
-		role, exists := dag.roles[current]
-		if !exists {
+		if _, exists := dag.roles[current]; !exists {
 			continue
 		}
-		result[role.Name] = struct{}{}
+		result[current] = struct{}{}
 		queue = append(queue, dag.edges[current]...)
 	}
 	dag.resolved[roleName] = result
-	return result
+	return maps.Clone(result)
 }
-- 
2.43.0


From b434355d12213d6f635016418b24737dd806cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:13 +0000
Subject: [PATCH 06/29] fix: v2 expired assignment keeps its right over child
 tenants

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 8c27745..ebd84b0 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -216,7 +216,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
@@ -271,7 +271,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
-- 
2.43.0


From d7ffefe809cf722b588fa6cb59759c2609809c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:14 +0000
Subject: [PATCH 07/29] fix: v2 SetExpiryDuration reports success for durations
 it did not apply

An unparsable string left the assignment unlimited while returning nil, and any
other type expired it on the spot.
---
 v2/v2.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v2/v2.go b/v2/v2.go
index ebd84b0..92ffa84 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -43,10 +43,12 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 	case string:
 		duration, err = time.ParseDuration(dur)
 		if err != nil {
-			return nil
+			return err
 		}
 	case time.Duration:
 		duration = dur
+	default:
+		return fmt.Errorf("unsupported expiry duration type: %T", dur)
 	}
 	expiry := time.Now().Add(duration)
 	pr.Expiry = &expiry
-- 
2.43.0


From f0f0f4210e909ae50733e884b723921034f13413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:15 +0000
Subject: [PATCH 08/29] fix: v2 grants in tenants that are not active when they
 are named or inherited

Only the lookup of a principal's tenants honoured the status: naming a blocked or
banned tenant (or having it as default tenant), or reaching it as a child tenant,
still granted.
---
 v2/v2.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 92ffa84..ad107ed 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -193,7 +193,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	}()
 	var traverse func(current *Tenant) error
 	traverse = func(current *Tenant) error {
-		if checkedTenants[current.ID] {
+		if checkedTenants[current.ID] || current.Status != TenantStatusActive {
 			return nil
 		}
 		checkedTenants[current.ID] = true
@@ -254,7 +254,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 	}()
 	var traverse func(current *Tenant) error
 	traverse = func(current *Tenant) error {
-		if checkedTenants[current.ID] {
+		if checkedTenants[current.ID] || current.Status != TenantStatusActive {
 			return nil
 		}
 		checkedTenants[current.ID] = true
@@ -335,7 +335,7 @@ func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
 		}
 	} else {
 		tenant, exists := a.tenants[request.Tenant]
-		if !exists {
+		if !exists || tenant.Status != TenantStatusActive {
 			return nil, false
 		}
 		tenantBuffer[0] = tenant
-- 
2.43.0


From 82d08aa36ca166d9b65a36ed87d78bd3d157363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:15 +0000
Subject: [PATCH 09/29] fix: v2 Can honours a role assigned for another scope

---
 v2/v2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index ad107ed..89cbf9f 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -240,7 +240,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	return nil, fmt.Errorf("no roleDAG or permissions found")
 }
 
-func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (map[string]struct{}, error) {
+func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace, scopeName string) (map[string]struct{}, error) {
 	tenant, exists := a.tenants[tenantID]
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
@@ -265,6 +265,9 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			if userRole.IsExpired() {
 				continue
 			}
+			if userRole.Scope != "" && userRole.Scope != scopeName {
+				continue
+			}
 			if (userRole.Namespace == "" || userRole.Namespace == namespace) && userRole.Role != "" {
 				scopedRoles[userRole.Role] = struct{}{}
 				for role := range a.roleDAG.ResolveChildRoles(userRole.Role) {
@@ -372,7 +375,7 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
 			continue
 		}
-		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace)
+		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace, request.Scope)
 		if err != nil {
 			a.Log(slog.LevelWarn, request, "Failed to resolve roles for authorization")
 			continue
-- 
2.43.0


From 767a30dbdf01e0ac42c3478d8fd128a5614e1118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:54 +0000
Subject: [PATCH 10/29] fix: v2 checks read shared state without the locks its
 writers take

Authorize, Can, GetRole, GetDefaultTenant and RemovePrincipalRole used the
assignment list, tenants, namespaces and roles unlocked, so a check running next
to AddPrincipalRole, AddTenant, AddNamespace or RemovePrincipalRole could crash
the process or miss assignments.
---
 v2/init.go |  5 ++--
 v2/role.go | 17 +++++++++++
 v2/v2.go   | 87 +++++++++++++++++++++++++++++-------------------------
 3 files changed, 66 insertions(+), 43 deletions(-)

diff --git a/v2/init.go b/v2/init.go
index 19fbe51..1d66212 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -10,8 +10,7 @@ func (a *Authorizer) AddRole(role *Role) *Role {
 }
 
 func (a *Authorizer) GetRole(val string) (*Role, bool) {
-	role, ok := a.roleDAG.roles[val]
-	return role, ok
+	return a.roleDAG.getRole(val)
 }
 
 func (a *Authorizer) AddChildRole(parent string, child ...string) error {
@@ -28,7 +27,7 @@ func (a *Authorizer) AddTenant(tenant *Tenant) *Tenant {
 	a.m.Lock()
 	defer a.m.Unlock()
 	a.tenants[tenant.ID] = tenant
-	for _, child := range tenant.ChildTenants {
+	for _, child := range tenant.childTenants() {
 		a.parentCache[child.ID] = tenant
 	}
 	return tenant
diff --git a/v2/role.go b/v2/role.go
index 5630c47..587607e 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -59,6 +59,16 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 	}
 }
 
+func (t *Tenant) childTenants() []*Tenant {
+	t.m.RLock()
+	defer t.m.RUnlock()
+	children := make([]*Tenant, 0, len(t.ChildTenants))
+	for _, child := range t.ChildTenants {
+		children = append(children, child)
+	}
+	return children
+}
+
 type RoleDAG struct {
 	mu       sync.RWMutex
 	roles    map[string]*Role
@@ -83,6 +93,13 @@ func (dag *RoleDAG) AddRole(roles ...*Role) {
 	clear(dag.resolved)
 }
 
+func (dag *RoleDAG) getRole(name string) (*Role, bool) {
+	dag.mu.RLock()
+	defer dag.mu.RUnlock()
+	role, ok := dag.roles[name]
+	return role, ok
+}
+
 func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 	dag.mu.Lock()
 	defer dag.mu.Unlock()
diff --git a/v2/v2.go b/v2/v2.go
index 89cbf9f..aa81870 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -98,6 +98,8 @@ func NewAuthorizer(auditLog ...*slog.Logger) *Authorizer {
 }
 
 func (a *Authorizer) SetDefaultTenant(tenant string) {
+	a.m.Lock()
+	defer a.m.Unlock()
 	a.defaultTenant = tenant
 }
 
@@ -114,6 +116,8 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
+	a.m.Lock()
+	defer a.m.Unlock()
 	updatedRoles := make([]*PrincipalRole, 0, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
@@ -172,13 +176,18 @@ var (
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
-	if a.defaultTenant != "" {
-		return a.GetTenant(a.defaultTenant)
+	a.m.RLock()
+	defaultTenant := a.defaultTenant
+	a.m.RUnlock()
+	if defaultTenant != "" {
+		return a.GetTenant(defaultTenant)
 	}
 	return nil, false
 }
 
 func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, scopeName string) (map[string]struct{}, error) {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	tenant, exists := a.tenants[tenantID]
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
@@ -219,7 +228,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.childTenants() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -241,6 +250,8 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 }
 
 func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace, scopeName string) (map[string]struct{}, error) {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	tenant, exists := a.tenants[tenantID]
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
@@ -277,7 +288,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace, scopeNam
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.childTenants() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -321,6 +332,8 @@ func (a *Authorizer) Log(level slog.Level, request Request, msg string) {
 }
 
 func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	if request.Tenant == "" && a.defaultTenant != "" {
 		request.Tenant = a.defaultTenant
 	}
@@ -355,24 +368,8 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, valid := a.findTargetNamespace(tenant, request)
+		if !valid {
 			continue
 		}
 		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace, request.Scope)
@@ -398,24 +395,8 @@ func (a *Authorizer) Authorize(request Request) bool {
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, valid := a.findTargetNamespace(tenant, request)
+		if !valid {
 			continue
 		}
 		permissions, err := a.resolvePrincipalPermissions(request.Principal, tenant.ID, namespace, request.Scope)
@@ -434,6 +415,32 @@ func (a *Authorizer) Authorize(request Request) bool {
 	return false
 }
 
+func (a *Authorizer) findTargetNamespace(tenant *Tenant, request Request) (string, bool) {
+	tenant.m.RLock()
+	defer tenant.m.RUnlock()
+	namespace := request.Namespace
+	if namespace == "" {
+		if tenant.DefaultNS != "" {
+			namespace = tenant.DefaultNS
+		} else if len(tenant.Namespaces) == 1 {
+			for ns := range tenant.Namespaces {
+				namespace = ns
+				break
+			}
+		} else {
+			return "", false
+		}
+	}
+	ns, exists := tenant.Namespaces[namespace]
+	if !exists {
+		return "", false
+	}
+	if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		return "", false
+	}
+	return namespace, true
+}
+
 func (a *Authorizer) isScopeValidForNamespace(ns *Namespace, scopeName string) bool {
 	_, exists := ns.Scopes[scopeName]
 	return exists
-- 
2.43.0


From 0087806eb520134fc7d5c0b21ba1dba1427b0074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:33 +0000
Subject: [PATCH 11/29] fix: trie conflates rows whose values sit in different
 fields

Absent fields were skipped in the key path, so {tenant A, namespace x} and
{tenant A, scope x} shared a node and the later one replaced the earlier.
---
 trie/trie.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 6cbe2aa..c5a7846 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -40,6 +40,12 @@ func (node *Node[T]) getChild(key any) (*Node[T], bool) {
 	return n, exists
 }
 
+// fieldKey tells equal values of different fields apart
+type fieldKey struct {
+	index int
+	value any
+}
+
 type Trie[T DataProps] struct {
 	root         *Node[T]
 	match        SearchFunc[T]
@@ -67,11 +73,11 @@ func (t *Trie[T]) Insert(data *T) {
 		panic("keyExtractor returned nil keys")
 	}
 
-	for _, key := range keys {
+	for index, key := range keys {
 		if key == nil {
 			continue
 		}
-		child, _ := node.addChild(key)
+		child, _ := node.addChild(fieldKey{index, key})
 		node = child
 	}
 
-- 
2.43.0


From 3aef283e3b4dc67cf4b5c104a8b5a856201b13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 12/29] fix: GetRolesByTenant never finds a role

The filter compared the row's role with the unset role of the query, so
tenant-wide activity checks were always denied and inherited roles were not
limited to the roles of the tenant.
---
 filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters.go b/filters.go
index 3b79b4d..2809bb1 100644
--- a/filters.go
+++ b/filters.go
@@ -62,7 +62,7 @@ func filterScopeByPrincipal(filter *Data, row *Data) bool {
 }
 
 func filterRoleByTenant(filter *Data, row *Data) bool {
-	return MatchTenant(row, filter) && MatchRole(row, filter)
+	return MatchTenant(row, filter) && !utils.IsNil(row.Role)
 }
 
 func filterNamespaceByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 5f225cabb04cc5b48d16e1eb62e9bbe4651c19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:35 +0000
Subject: [PATCH 13/29] fix: role and scope lookups honour rows of other
 principals, tenants and namespaces

The conditions were alternatives: any principal's role in the namespace or scope
counted for everyone, a role in a namespace of one tenant counted in another
tenant, and a scope given to a principal in one namespace counted in all.
---
 filters.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/filters.go b/filters.go
index 2809bb1..06bc1c1 100644
--- a/filters.go
+++ b/filters.go
@@ -99,33 +99,34 @@ func filterScopeForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Scope) {
 		return false
 	}
-	return MatchTenant(row, filter) && (utils.IsNil(row.Namespace) && utils.IsNil(row.Principal) ||
-		MatchNamespace(row, filter) && utils.IsNil(row.Principal) ||
-		MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) &&
+		(utils.IsNil(row.Principal) || MatchPrincipal(row, filter))
 }
 
 func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchNamespace(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchScope(row, filter) && MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		MatchNamespace(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) || MatchScope(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterNamespaceForPrincipalByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 097a4b409006f7a037b877044561186ec1c43a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:36 +0000
Subject: [PATCH 14/29] fix: naming only an activity or only its group skips
 the activity check

Such a request was decided as if it named neither, granting an activity without
looking at it.
---
 authorize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index 9b79c4e..1fcfae9 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,7 +22,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
-	noActivity := !(svr.activityGroup != nil && svr.activity != nil)
+	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
 	tsFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope != nil
-- 
2.43.0


From 17f561f6b8b216e29c80c864fbc76387b0dfbad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:37 +0000
Subject: [PATCH 15/29] fix: Authorize and TenantChildren answer from caches
 nothing invalidates

A principal's tenants and a tenant's descendants were remembered from the first
check on; later assignments and descendants were ignored.
---
 query.go        |  5 -----
 role_manager.go | 11 +----------
 2 files changed, 1 insertion(+), 15 deletions(-)

diff --git a/query.go b/query.go
index 7f6b636..0c4b459 100644
--- a/query.go
+++ b/query.go
@@ -37,10 +37,6 @@ func (u *RoleManager) GetDescendantTenant(desc any) []any {
 }
 
 func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{} {
-	principalTenant, exists := u.principalCache.Get(principalID)
-	if exists {
-		return principalTenant
-	}
 	tenantPrincipal := u.search(Data{Principal: principalID}, filterTenantsByPrincipal)
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
@@ -57,7 +53,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 			}
 		}
 	}
-	u.principalCache.Set(principalID, existingTenant)
 	return existingTenant
 }
 
diff --git a/role_manager.go b/role_manager.go
index 9c7353d..436627b 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -18,8 +18,6 @@ type RoleManager struct {
 	attributes      maps.IMap[string, *Attribute]
 	attributeGroups maps.IMap[string, *AttributeGroup]
 	trie            *trie.Trie[Data]
-	hierarchy       maps.IMap[string, []any]
-	principalCache  maps.IMap[string, map[string]struct{}]
 }
 
 func New() *RoleManager {
@@ -32,8 +30,6 @@ func New() *RoleManager {
 		attributes:      maps.NewMap[string, *Attribute](),
 		attributeGroups: maps.NewMap[string, *AttributeGroup](),
 		trie:            trie.New[Data](FilterFunc, DataKeyExtractor),
-		hierarchy:       maps.NewMap[string, []any](),
-		principalCache:  maps.NewMap[string, map[string]struct{}](),
 	}
 }
 
@@ -122,16 +118,11 @@ func (u *RoleManager) TotalScopes() int {
 }
 
 func (u *RoleManager) TenantChildren(t string) []any {
-	if hierarchy, exists := u.hierarchy.Get(t); exists {
-		return hierarchy
-	}
 	tenant, exists := u.GetTenant(t)
 	if !exists {
 		return nil
 	}
-	hierarchy := tenant.GetDescendants()
-	u.hierarchy.Set(t, utils.Compact(hierarchy))
-	return hierarchy
+	return utils.Compact(tenant.GetDescendants())
 }
 
 func (u *RoleManager) TotalTenants() int {
-- 
2.43.0


From 3b23980bb2197939c5a7b1fc424cde963e848844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:37 +0000
Subject: [PATCH 16/29] fix: right to manage descendants depends on iteration
 order

Only the first row seen of a principal's tenant was looked at, so the right was
lost whenever a row without it came first.
---
 query.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/query.go b/query.go
index 0c4b459..1ddae40 100644
--- a/query.go
+++ b/query.go
@@ -41,9 +41,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
 		tenantID := rs.Tenant.(string)
-		if _, alreadyProcessed := existingTenant[tenantID]; alreadyProcessed {
-			continue
-		}
 		existingTenant[tenantID] = struct{}{}
 		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
 			for _, desc := range u.TenantChildren(tenantID) {
-- 
2.43.0


From 448adc5f7f08de8833d6cede0f018285fa63d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:38 +0000
Subject: [PATCH 17/29] fix: Authorize falls back to any tenant of the
 principal

When the named tenant did not grant, every other tenant of the principal was
tried in its place, so being known in any tenant gave access to all of them. Only
a tenant whose descendants the principal manages, and of which the named tenant
is a descendant, may stand in for it.
---
 activity_group.go | 38 ++++++++++++++++----------------------
 authorize.go      | 13 +++++++++----
 query.go          | 14 ++++++++++++++
 3 files changed, 39 insertions(+), 26 deletions(-)

diff --git a/activity_group.go b/activity_group.go
index 590872b..35524d1 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -40,25 +40,10 @@ type ScopeRoles struct {
 func (u *RoleManager) GetScopesWithRolesForPrincipal(principalID, tenantID, namespaceID any) (response []ScopeRoles) {
 	seen := make(map[any][]any)
 	data := Data{Principal: principalID, Tenant: tenantID, Namespace: namespaceID}
-	tenantPrincipals := u.search(data, filterPrincipalByTenant)
-	if len(tenantPrincipals) == 0 {
-		for tenant := range u.GetImplicitTenants(principalID.(string)) {
-			if tenant == tenantID {
-				continue
-			}
-			data.Tenant = tenant
-			tenantPrincipals = u.search(data, filterPrincipalByTenant)
-			if len(tenantPrincipals) > 0 {
-				break
-			}
-		}
-	}
-
-	tenantNamespaceEntities := u.search(data, filterScopeByTenantAndNamespace)
-	if len(tenantNamespaceEntities) == 0 {
-		tenantNamespaceEntities = u.search(data, filterScopeByTenant)
+	tenants := []any{tenantID}
+	if len(u.search(data, filterPrincipalByTenant)) == 0 {
+		tenants = u.managingTenants(principalID, tenantID)
 	}
-	tenantScopePrincipals := u.search(data, filterScopePrincipalByTenant)
 	joinFn := func(p *Data, a *Data) bool {
 		return MatchTenant(p, a)
 	}
@@ -70,10 +55,19 @@ func (u *RoleManager) GetScopesWithRolesForPrincipal(principalID, tenantID, name
 			Role:      a.Role,
 		}
 	}
-	result := utils.JoinSlices(tenantNamespaceEntities, tenantPrincipals, joinFn, combineFn)
-	result = append(result, tenantScopePrincipals...)
-	for _, r := range result {
-		seen[r.Scope] = append(seen[r.Scope], r.Role)
+	for _, tenant := range tenants {
+		data.Tenant = tenant
+		tenantPrincipals := u.search(data, filterPrincipalByTenant)
+		tenantNamespaceEntities := u.search(data, filterScopeByTenantAndNamespace)
+		if len(tenantNamespaceEntities) == 0 {
+			tenantNamespaceEntities = u.search(data, filterScopeByTenant)
+		}
+		tenantScopePrincipals := u.search(data, filterScopePrincipalByTenant)
+		result := utils.JoinSlices(tenantNamespaceEntities, tenantPrincipals, joinFn, combineFn)
+		result = append(result, tenantScopePrincipals...)
+		for _, r := range result {
+			seen[r.Scope] = append(seen[r.Scope], r.Role)
+		}
 	}
 	for scope, roles := range seen {
 		response = append(response, ScopeRoles{
diff --git a/authorize.go b/authorize.go
index 1fcfae9..c1ecc11 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,6 +22,11 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
+	if svr.tenant != nil {
+		if _, ok := userRoles[svr.tenant.(string)]; !ok {
+			return false
+		}
+	}
 	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
@@ -31,10 +36,10 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 		return true
 	}
-	for tenant := range userRoles {
-		if svr.tenant == tenant && svr.tenant != nil {
-			continue
-		}
+	if svr.tenant == nil {
+		return false
+	}
+	for _, tenant := range u.managingTenants(principalID, svr.tenant) {
 		svr.tenant = tenant
 		if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 			return true
diff --git a/query.go b/query.go
index 1ddae40..5bc7485 100644
--- a/query.go
+++ b/query.go
@@ -53,6 +53,20 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	return existingTenant
 }
 
+// managingTenants returns the tenants in which the principal may manage descendants, and
+// of which tenantID is a descendant.
+func (u *RoleManager) managingTenants(principalID, tenantID any) (data []any) {
+	for _, rs := range u.search(Data{Principal: principalID}, filterTenantsByPrincipal) {
+		if canManage, ok := rs.ManageDescendants.(bool); !ok || !canManage || rs.Tenant == tenantID {
+			continue
+		}
+		if utils.Contains(u.TenantChildren(utils.ToString(rs.Tenant)), tenantID) {
+			data = append(data, rs.Tenant)
+		}
+	}
+	return utils.Compact(data)
+}
+
 func (u *RoleManager) GetScopesByPrincipal(principalID any) (data []*Data) {
 	results := u.search(Data{Principal: principalID}, filterScopeByPrincipal)
 	return results
-- 
2.43.0


From e8f37f84e02e356e9c53dae818b6fbca50ac1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:28 +0000
Subject: [PATCH 18/29] fix: Role.Has misses inherited groups and never ends on
 cyclic or long role chains

A role without own permissions in the group did not inherit any in it, although
GetAllImplicitPermissions lists them. Descendants were walked again from every
descendant, so a refusal took time exponential in the length of a chain, and two
roles below each other overflowed the stack.
---
 role.go    | 72 ++++++++++++++++++++++++++++--------------------------
 v1/role.go | 72 ++++++++++++++++++++++++++++--------------------------
 2 files changed, 74 insertions(+), 70 deletions(-)

diff --git a/role.go b/role.go
index 7f3f8f2..95e8d91 100644
--- a/role.go
+++ b/role.go
@@ -55,6 +55,24 @@ func (r *Role) Unlock() {
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+	if r.hasOwn(resourceGroup, permissionName) {
+		return true
+	}
+	totalD := len(allowedDescendants)
+	// Check inherited permissions
+	for _, descendant := range r.GetDescendantRoles() {
+		if totalD > 0 && !slices.Contains(allowedDescendants, descendant.id) {
+			continue
+		}
+		if descendant.hasOwn(resourceGroup, permissionName) {
+			return true
+		}
+	}
+	return false
+}
+
+// hasOwn leaves inherited permissions aside
+func (r *Role) hasOwn(resourceGroup, permissionName string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
 		return false
@@ -70,34 +88,25 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 		}
 		return true
 	})
-	if matched {
-		return true
-	}
-	totalD := len(allowedDescendants)
-	// Check inherited permissions recursively
-	for _, descendant := range r.GetDescendantRoles() {
-		if totalD > 0 {
-			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-					return true
-				}
-			}
-		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-				return true
-			}
-		}
-	}
-	return false
+	return matched
 }
 
+// GetDescendantRoles returns every role below this one, once
 func (r *Role) GetDescendantRoles() []*Role {
 	var descendants []*Role
-	r.descendants.ForEach(func(_ string, child *Role) bool {
-		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
-		return true
-	})
+	seen := map[*Role]struct{}{r: {}}
+	var collect func(role *Role)
+	collect = func(role *Role) {
+		role.descendants.ForEach(func(_ string, child *Role) bool {
+			if _, ok := seen[child]; !ok {
+				seen[child] = struct{}{}
+				descendants = append(descendants, child)
+				collect(child)
+			}
+			return true
+		})
+	}
+	collect(r)
 	return descendants
 }
 
@@ -163,17 +172,10 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
-			return true
-		})
-		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
-	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
+	for _, role := range append([]*Role{r}, r.GetDescendantRoles()...) {
+		for resourceGroup, permissions := range role.GetPermissions() {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
+		}
 	}
 	return grpPermissions
 }
diff --git a/v1/role.go b/v1/role.go
index b4ab22a..099d4ad 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -54,6 +54,24 @@ func (r *Role) Unlock() {
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
+	if r.hasOwn(resourceGroup, permissionName) {
+		return true
+	}
+	totalD := len(allowedDescendants)
+	// Check inherited permissions
+	for _, descendant := range r.GetDescendantRoles() {
+		if totalD > 0 && !slices.Contains(allowedDescendants, descendant.id) {
+			continue
+		}
+		if descendant.hasOwn(resourceGroup, permissionName) {
+			return true
+		}
+	}
+	return false
+}
+
+// hasOwn leaves inherited permissions aside
+func (r *Role) hasOwn(resourceGroup, permissionName string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
 		return false
@@ -69,34 +87,25 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 		}
 		return true
 	})
-	if matched {
-		return true
-	}
-	totalD := len(allowedDescendants)
-	// Check inherited permissions recursively
-	for _, descendant := range r.GetDescendantRoles() {
-		if totalD > 0 {
-			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-					return true
-				}
-			}
-		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
-				return true
-			}
-		}
-	}
-	return false
+	return matched
 }
 
+// GetDescendantRoles returns every role below this one, once
 func (r *Role) GetDescendantRoles() []*Role {
 	var descendants []*Role
-	r.descendants.ForEach(func(_ string, child *Role) bool {
-		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
-		return true
-	})
+	seen := map[*Role]struct{}{r: {}}
+	var collect func(role *Role)
+	collect = func(role *Role) {
+		role.descendants.ForEach(func(_ string, child *Role) bool {
+			if _, ok := seen[child]; !ok {
+				seen[child] = struct{}{}
+				descendants = append(descendants, child)
+				collect(child)
+			}
+			return true
+		})
+	}
+	collect(r)
 	return descendants
 }
 
@@ -162,17 +171,10 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
-			return true
-		})
-		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
-	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
+	for _, role := range append([]*Role{r}, r.GetDescendantRoles()...) {
+		for resourceGroup, permissions := range role.GetPermissions() {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
+		}
 	}
 	return grpPermissions
 }
-- 
2.43.0


From c3786daf8026ca7fee520af61195d0d6fa3ca1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:29 +0000
Subject: [PATCH 19/29] fix: tenants below each other overflow the stack

---
 tenant.go    | 18 +++++++++++++-----
 v1/tenant.go | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/tenant.go b/tenant.go
index 6ff7ad6..53374b3 100644
--- a/tenant.go
+++ b/tenant.go
@@ -29,11 +29,19 @@ func (c *Tenant) AddNamespace(n *Namespace) *Namespace {
 }
 
 func (c *Tenant) GetDescendants() (data []any) {
-	c.descendants.ForEach(func(id string, t *Tenant) bool {
-		data = append(data, id)
-		data = append(data, t.GetDescendants()...)
-		return true
-	})
+	seen := map[*Tenant]struct{}{c: {}}
+	var collect func(tenant *Tenant)
+	collect = func(tenant *Tenant) {
+		tenant.descendants.ForEach(func(id string, t *Tenant) bool {
+			if _, ok := seen[t]; !ok {
+				seen[t] = struct{}{}
+				data = append(data, id)
+				collect(t)
+			}
+			return true
+		})
+	}
+	collect(c)
 	return
 }
 
diff --git a/v1/tenant.go b/v1/tenant.go
index 56e345d..6966cf6 100644
--- a/v1/tenant.go
+++ b/v1/tenant.go
@@ -20,11 +20,19 @@ func (c *Tenant) ID() string {
 
 func (c *Tenant) GetDescendantTenants() []*Tenant {
 	var descendants []*Tenant
-	c.descendants.ForEach(func(_ string, child *Tenant) bool {
-		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantTenants()...)
-		return true
-	})
+	seen := map[*Tenant]struct{}{c: {}}
+	var collect func(tenant *Tenant)
+	collect = func(tenant *Tenant) {
+		tenant.descendants.ForEach(func(_ string, child *Tenant) bool {
+			if _, ok := seen[child]; !ok {
+				seen[child] = struct{}{}
+				descendants = append(descendants, child)
+				collect(child)
+			}
+			return true
+		})
+	}
+	collect(c)
 	return descendants
 }
 
-- 
2.43.0


From d449c5ffd1cf340a06d220db3d0df4eebbaf3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:30 +0000
Subject: [PATCH 20/29] fix: attribute groups attached to a role are shared
 with other roles

AddPermission on one role added the permission to every role the group was
attached to, and to the group itself; extending the group changed locked roles.
---
 role.go    | 8 +++++++-
 v1/role.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/role.go b/role.go
index 95e8d91..cc76c8d 100644
--- a/role.go
+++ b/role.go
@@ -150,7 +150,13 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		// the role gets a copy: the group may be shared with other roles
+		group := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(_ string, attr *Attribute) bool {
+			group.AddAttributes(attr)
+			return true
+		})
+		r.permissions.Set(resourceGroup.id, group)
 	}
 	return nil
 }
diff --git a/v1/role.go b/v1/role.go
index 099d4ad..3a495c3 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -149,7 +149,13 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		// the role gets a copy: the group may be shared with other roles
+		group := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(_ string, attr *Attribute) bool {
+			group.AddAttributes(attr)
+			return true
+		})
+		r.permissions.Set(resourceGroup.id, group)
 	}
 	return nil
 }
-- 
2.43.0


From d56eaf138af6d5ad59863b5f98e395be893cda88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:31 +0000
Subject: [PATCH 21/29] fix: concurrent additions lose assignments, permissions
 and registrations

Tries, registries and permission groups were extended with a lookup followed by a
separate store, so of two concurrent additions one could replace the other, and
trie nodes were published with unsynchronised writes.
---
 activity.go       |  7 ++-----
 activity_group.go |  7 ++-----
 namespace.go      |  7 ++-----
 permission.go     |  7 ++-----
 principal.go      |  7 ++-----
 role.go           | 21 +++++++--------------
 scope.go          |  7 ++-----
 tenant.go         |  7 ++-----
 trie/trie.go      | 19 +++++++------------
 9 files changed, 28 insertions(+), 61 deletions(-)

diff --git a/activity.go b/activity.go
index 4766802..08d25b9 100644
--- a/activity.go
+++ b/activity.go
@@ -7,11 +7,8 @@ func WithActivity(activity any) func(*Option) {
 }
 
 func (u *RoleManager) AddAttribute(attr *Attribute) *Attribute {
-	if d, ok := u.attributes.Get(attr.String()); ok {
-		return d
-	}
-	u.attributes.Set(attr.String(), attr)
-	return attr
+	d, _ := u.attributes.GetOrSet(attr.String(), attr)
+	return d
 }
 
 func (u *RoleManager) AddAttributes(attrs ...*Attribute) {
diff --git a/activity_group.go b/activity_group.go
index 35524d1..80bfe01 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -11,11 +11,8 @@ func WithAttributeGroup(activityGroup any) func(*Option) {
 }
 
 func (u *RoleManager) AddAttributeGroup(attr *AttributeGroup) *AttributeGroup {
-	if d, ok := u.attributeGroups.Get(attr.id); ok {
-		return d
-	}
-	u.attributeGroups.Set(attr.id, attr)
-	return attr
+	d, _ := u.attributeGroups.GetOrSet(attr.id, attr)
+	return d
 }
 
 func (u *RoleManager) AddAttributeGroups(attrs ...*AttributeGroup) {
diff --git a/namespace.go b/namespace.go
index eebc1e5..3dad58d 100644
--- a/namespace.go
+++ b/namespace.go
@@ -15,11 +15,8 @@ func (n *Namespace) ID() string {
 }
 
 func (u *RoleManager) AddNamespace(data *Namespace) *Namespace {
-	if d, ok := u.namespaces.Get(data.id); ok {
-		return d
-	}
-	u.namespaces.Set(data.id, data)
-	return data
+	d, _ := u.namespaces.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddNamespaces(nms ...*Namespace) {
diff --git a/permission.go b/permission.go
index 10c70dd..e1e60eb 100644
--- a/permission.go
+++ b/permission.go
@@ -56,11 +56,8 @@ func NewPrincipal(id string) *Principal {
 }
 
 func (u *RoleManager) AddRole(role *Role) *Role {
-	if r, exists := u.roles.Get(role.id); exists {
-		return r
-	}
-	u.roles.Set(role.id, role)
-	return role
+	r, _ := u.roles.GetOrSet(role.id, role)
+	return r
 }
 
 func (u *RoleManager) AddRoles(roles ...*Role) {
diff --git a/principal.go b/principal.go
index e92ef05..ac08df0 100644
--- a/principal.go
+++ b/principal.go
@@ -10,11 +10,8 @@ func (p *Principal) ID() string {
 }
 
 func (u *RoleManager) AddPrincipal(data *Principal) *Principal {
-	if d, ok := u.principals.Get(data.id); ok {
-		return d
-	}
-	u.principals.Set(data.id, data)
-	return data
+	d, _ := u.principals.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddPrincipals(principals ...*Principal) {
diff --git a/role.go b/role.go
index cc76c8d..c5feb2a 100644
--- a/role.go
+++ b/role.go
@@ -128,20 +128,13 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
-	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
-	if !exists || resourceGroupAttributes == nil {
-		resourceGroupAttributes = &AttributeGroup{
-			id:          resourceGroup,
-			permissions: maps.NewMap[string, *Attribute](),
-		}
-	}
+	resourceGroupAttributes, _ := r.permissions.GetOrCompute(resourceGroup, func() *AttributeGroup {
+		return NewAttributeGroup(resourceGroup)
+	})
 	perm := resourceGroupAttributes.permissions
 	for _, permission := range permissions {
-		if _, ok := perm.Get(permission.String()); !ok {
-			perm.Set(permission.String(), permission)
-		}
+		perm.GetOrSet(permission.String(), permission)
 	}
-	r.permissions.Set(resourceGroup, resourceGroupAttributes)
 	return nil
 }
 
@@ -149,15 +142,15 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
-	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
+	r.permissions.GetOrCompute(resourceGroup.id, func() *AttributeGroup {
 		// the role gets a copy: the group may be shared with other roles
 		group := NewAttributeGroup(resourceGroup.id)
 		resourceGroup.permissions.ForEach(func(_ string, attr *Attribute) bool {
 			group.AddAttributes(attr)
 			return true
 		})
-		r.permissions.Set(resourceGroup.id, group)
-	}
+		return group
+	})
 	return nil
 }
 
diff --git a/scope.go b/scope.go
index 2072bc4..969a0d7 100644
--- a/scope.go
+++ b/scope.go
@@ -15,11 +15,8 @@ func (s *Scope) ID() string {
 }
 
 func (u *RoleManager) AddScope(data *Scope) *Scope {
-	if d, ok := u.scopes.Get(data.id); ok {
-		return d
-	}
-	u.scopes.Set(data.id, data)
-	return data
+	d, _ := u.scopes.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddScopes(scopes ...*Scope) {
diff --git a/tenant.go b/tenant.go
index 53374b3..c582f30 100644
--- a/tenant.go
+++ b/tenant.go
@@ -150,11 +150,8 @@ func (c *Tenant) AssignScopesToPrincipal(principalID string, manageDescendants b
 
 func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
 	data.manager = u
-	if d, ok := u.tenants.Get(data.id); ok {
-		return d
-	}
-	u.tenants.Set(data.id, data)
-	return data
+	d, _ := u.tenants.GetOrSet(data.id, data)
+	return d
 }
 
 func (u *RoleManager) AddTenants(tenants ...*Tenant) {
diff --git a/trie/trie.go b/trie/trie.go
index c5a7846..1cd50a1 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1,6 +1,8 @@
 package trie
 
 import (
+	"sync/atomic"
+
 	maps "github.com/oarkflow/xsync"
 )
 
@@ -12,8 +14,7 @@ type KeyExtractor[T DataProps] func(data *T) []any
 
 type Node[T DataProps] struct {
 	child maps.IMap[any, *Node[T]]
-	isEnd bool
-	data  *T
+	data  atomic.Pointer[T] // nil unless a key path ends here
 }
 
 func NewNode[T DataProps]() *Node[T] {
@@ -24,12 +25,7 @@ func (node *Node[T]) addChild(key any) (*Node[T], bool) {
 	if key == nil {
 		return nil, false
 	}
-	if n, exists := node.child.Get(key); exists {
-		return n, true
-	}
-	n := NewNode[T]()
-	node.child.Set(key, n)
-	return n, false
+	return node.child.GetOrCompute(key, NewNode[T])
 }
 
 func (node *Node[T]) getChild(key any) (*Node[T], bool) {
@@ -81,8 +77,7 @@ func (t *Trie[T]) Insert(data *T) {
 		node = child
 	}
 
-	node.isEnd = true
-	node.data = data
+	node.data.Store(data)
 }
 
 func (t *Trie[T]) First(filter *T) *T {
@@ -115,14 +110,14 @@ func (t *Trie[T]) search(filter *T, callback SearchFunc[T], stopAfterFirst ...bo
 	var dfs func(node *Node[T]) bool
 	resultCount := 0
 	dfs = func(node *Node[T]) bool {
-		if node.isEnd && callback(filter, node.data) {
+		if data := node.data.Load(); data != nil && callback(filter, data) {
 			resultCount++
 			if len(results) == cap(results) {
 				newResults := make([]*T, len(results), 2*cap(results))
 				copy(newResults, results)
 				results = newResults
 			}
-			results = append(results, node.data)
+			results = append(results, data)
 			if stop {
 				return true
 			}
-- 
2.43.0


From e0d68f0654e5f5fbc74adb0dd5e342b65b2a4a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:15 +0000
Subject: [PATCH 22/29] fix: v1 takes an underscore in an id for a field
 separator

Assignments were kept as ids joined by '_' and split again on every lookup, so an
id with an underscore was read as other ids: assignments got lost or turned up
as another principal's, role's or tenant's.
---
 v1/role_manager.go | 93 ++++++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 57 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 3a9a260..3b713af 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"slices"
-	"strings"
 
 	"github.com/oarkflow/maps"
 
@@ -38,7 +37,7 @@ type RoleManager struct {
 	roles            maps.IMap[string, *Role]
 	attributes       maps.IMap[string, *Attribute]
 	attributeGroups  maps.IMap[string, *AttributeGroup]
-	tenantPrincipals map[string]struct{}
+	tenantPrincipals map[TenantPrincipal]struct{}
 }
 
 func New() *RoleManager {
@@ -50,7 +49,7 @@ func New() *RoleManager {
 		roles:            maps.New[string, *Role](),
 		attributes:       maps.New[string, *Attribute](),
 		attributeGroups:  maps.New[string, *AttributeGroup](),
-		tenantPrincipals: make(map[string]struct{}),
+		tenantPrincipals: make(map[TenantPrincipal]struct{}),
 	}
 }
 
@@ -271,38 +270,25 @@ func getScopeID(n *Scope) string {
 	return n.ID()
 }
 
-func getTenantPrincipals(hash string) TenantPrincipal {
-	parts := strings.Split(hash, "_")
-	m := false
-	if parts[5] == "true" {
-		m = true
-	}
-	return TenantPrincipal{
-		TenantID:             parts[2],
-		PrincipalID:          parts[0],
-		RoleID:               parts[1],
-		NamespaceID:          parts[3],
-		ScopeID:              parts[4],
-		CanManageDescendants: m,
-	}
-}
-
 func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant *Tenant, namespace *Namespace, scope *Scope, canManageDescendants ...bool) {
 	manageDescendants := true
 	if len(canManageDescendants) > 0 {
 		manageDescendants = canManageDescendants[0]
 	}
-	h := fmt.Sprintf("%s_%s_%s_%s_%s_%v", principalID, roleID, tenant.ID(), getNamespaceID(namespace), getScopeID(scope), manageDescendants)
-	if _, exists := u.tenantPrincipals[h]; !exists {
-		u.tenantPrincipals[h] = struct{}{}
-	}
+	u.tenantPrincipals[TenantPrincipal{
+		TenantID:             tenant.ID(),
+		PrincipalID:          principalID,
+		RoleID:               roleID,
+		NamespaceID:          getNamespaceID(namespace),
+		ScopeID:              getScopeID(scope),
+		CanManageDescendants: manageDescendants,
+	}] = struct{}{}
 }
 
 func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []string, err error) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID {
-			tenants = append(tenants, unmarshalled.TenantID)
+	for assignment := range u.tenantPrincipals {
+		if assignment.PrincipalID == principalID {
+			tenants = append(tenants, assignment.TenantID)
 		}
 	}
 	tenants = slices.Compact(tenants)
@@ -315,20 +301,18 @@ type PrincipalPermissions struct {
 }
 
 func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
-			data = append(data, unmarshalled)
+	for assignment := range u.tenantPrincipals {
+		if assignment.PrincipalID == principalID && assignment.TenantID == tenant {
+			data = append(data, assignment)
 		}
 	}
 	return
 }
 
 func (u *RoleManager) GetTenantRoles(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.TenantID == tenant {
-			data = append(data, unmarshalled)
+	for assignment := range u.tenantPrincipals {
+		if assignment.TenantID == tenant {
+			data = append(data, assignment)
 		}
 	}
 	return
@@ -339,10 +323,9 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 	if tenant, ok := u.tenants.Get(tenantID); ok {
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
-				for tenantPrincipal := range u.tenantPrincipals {
-					unmarshalled := getTenantPrincipals(tenantPrincipal)
-					if unmarshalled.TenantID == id {
-						data = append(data, unmarshalled)
+				for assignment := range u.tenantPrincipals {
+					if assignment.TenantID == id {
+						data = append(data, assignment)
 					}
 				}
 				return true
@@ -353,13 +336,12 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 }
 
 func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (data []PrincipalPermissions) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
-			if unmarshalled.RoleID != "" {
-				if r, ok := u.roles.Get(unmarshalled.RoleID); ok {
+	for assignment := range u.tenantPrincipals {
+		if assignment.PrincipalID == principalID && assignment.TenantID == tenant {
+			if assignment.RoleID != "" {
+				if r, ok := u.roles.Get(assignment.RoleID); ok {
 					d := PrincipalPermissions{
-						TenantPrincipal: unmarshalled,
+						TenantPrincipal: assignment,
 					}
 					d.Permissions = r.GetPermissions()
 					data = append(data, d)
@@ -371,10 +353,9 @@ func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (da
 }
 
 func (u *RoleManager) GetPrincipalRolesByTenant(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.TenantID == tenant {
-			data = append(data, unmarshalled)
+	for assignment := range u.tenantPrincipals {
+		if assignment.TenantID == tenant {
+			data = append(data, assignment)
 		}
 	}
 	return
@@ -411,10 +392,9 @@ func (u *RoleManager) GetScopesForPrincipal(principalID string) ([]string, error
 		return nil, errors.New("no principal available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" {
-			scopes = append(scopes, unmarshalled.ScopeID)
+	for assignment := range u.tenantPrincipals {
+		if assignment.PrincipalID == principalID && assignment.ScopeID != "" {
+			scopes = append(scopes, assignment.ScopeID)
 		}
 	}
 	return scopes, nil
@@ -430,10 +410,9 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 		return nil, errors.New("no tenant available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
-		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" && unmarshalled.TenantID == tenantID {
-			scopes = append(scopes, unmarshalled.ScopeID)
+	for assignment := range u.tenantPrincipals {
+		if assignment.PrincipalID == principalID && assignment.ScopeID != "" && assignment.TenantID == tenantID {
+			scopes = append(scopes, assignment.ScopeID)
 		}
 	}
 	return scopes, nil
-- 
2.43.0


From 0fb28dd45c953b897c2f86af3ef346112cd60da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 23/29] fix: v1 grants tenants and scopes whoever asks

A tenant was granted to any known principal, and a scope of a tenant's namespace
because somebody else had been assigned to it. Both take an assignment of the
principal in the tenant.
---
 v1/role_manager.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 3b713af..93e581d 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -506,7 +506,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 
 	// Check if only tenant is provided
 	if svr.tenant != nil && svr.namespace == nil && svr.scope == nil && svr.resourceGroup == nil && svr.activity == nil {
-		return u.authorizeForTenant(utils.ToString(svr.tenant))
+		return u.authorizeForTenant(principalID, utils.ToString(svr.tenant))
 	}
 
 	// Check if only namespace is provided
@@ -590,18 +590,21 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 			return true
 		}
 	}
+	if len(userRoles) == 0 {
+		return false
+	}
 	tenantRoles := u.GetTenantRoles(tenantID)
 	for _, r := range tenantRoles {
-		if r.NamespaceID == namespaceID && r.ScopeID == scopeID {
+		if r.PrincipalID == "" && r.NamespaceID == namespaceID && r.ScopeID == scopeID {
 			return true
 		}
 	}
 	return false
 }
 
-func (u *RoleManager) authorizeForTenant(tenantID string) bool {
+func (u *RoleManager) authorizeForTenant(principalID, tenantID string) bool {
 	_, exists := u.GetTenant(tenantID)
-	return exists
+	return exists && len(u.GetPrincipalRoles(tenantID, principalID)) > 0
 }
 
 func (u *RoleManager) authorizeForNamespace(principalID, namespace string) bool {
-- 
2.43.0


From 9bec29efdb089f43c86643fb7a3bc441393a8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:16 +0000
Subject: [PATCH 24/29] fix: v1 GetAllowedRoles returns a slice that the next
 call overwrites

Its array was already back in the pool. It also panicked for an empty list and
for assignments in a tenant that is not registered.
---
 v1/role_manager.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 93e581d..0ed142c 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -419,7 +419,12 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 }
 
 func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespace, scope string) []string {
-	if principalRoles == nil {
+	if len(principalRoles) == 0 {
+		return nil
+	}
+	tenantID := principalRoles[0].TenantID
+	tenant, exists := u.tenants.Get(tenantID)
+	if !exists {
 		return nil
 	}
 	// Reusable slices
@@ -437,8 +442,6 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 		principalRoleSlice.Put(principalTenantRole)
 		principalRoleSlice.Put(principalNamespaceScopeRole)
 	}()
-	tenantID := principalRoles[0].TenantID
-	tenant, _ := u.tenants.Get(tenantID)
 	mod, modExists := tenant.namespaces.Get(namespace)
 	_, entExists := tenant.scopes.Get(scope)
 	if (scope != "" && !entExists) || (namespace != "" && !modExists) {
@@ -493,7 +496,8 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 			return nil
 		}
 	}
-	return slices.Compact(allowedRoles)
+	// the backing array goes back to the pool
+	return slices.Clone(slices.Compact(allowedRoles))
 }
 func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bool {
 	svr := &Option{}
-- 
2.43.0


From ea5be1742aec1d95130f9e0250524fc13abb1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:17 +0000
Subject: [PATCH 25/29] fix: v1 activity checks use roles assigned for another
 namespace or scope

---
 v1/role_manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 0ed142c..8027999 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -700,6 +700,12 @@ func (u *RoleManager) authorizeComplex(svr *Option, principalID string) bool {
 	}
 	roles := make(map[string]*Role)
 	for _, r := range principalRoles {
+		if namespace != "" && r.NamespaceID != "" && r.NamespaceID != namespace {
+			continue
+		}
+		if scope != "" && r.ScopeID != "" && r.ScopeID != scope {
+			continue
+		}
 		if role, ex := u.roles.Get(r.RoleID); ex {
 			roles[r.RoleID] = role
 		}
-- 
2.43.0


From 342cb53e85da4482bb8425e1ceb59212f19342a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:18 +0000
Subject: [PATCH 26/29] fix: v1 GetTenantsForPrincipal repeats tenants

---
 v1/role_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 8027999..31a710e 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -291,6 +291,7 @@ func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []stri
 			tenants = append(tenants, assignment.TenantID)
 		}
 	}
+	slices.Sort(tenants)
 	tenants = slices.Compact(tenants)
 	return
 }
-- 
2.43.0


From 5e23b2580b146d839d21681934ff71a3dd48bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:51 +0000
Subject: [PATCH 27/29] fix: Serialize conflates distinct items and panics on
 most types

---
 utils/str.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index 746dab3..445852d 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -147,25 +147,27 @@ func Union[T any](a, b []T) []T {
 	return union
 }
 
+// Serialize returns the same string for items of equal content only
 func Serialize[T any](item T) string {
 	v := reflect.ValueOf(item)
-	if v.Kind() == reflect.Map {
-		keys := v.MapKeys()
-		sort.Slice(keys, func(i, j int) bool {
-			return keys[i].String() < keys[j].String()
-		})
-		var builder strings.Builder
-		for _, k := range keys {
-			builder.WriteString(fmt.Sprintf("%s:%v|", k, v.MapIndex(k)))
-		}
-		return builder.String()
-	}
-
 	var builder strings.Builder
-	t := v.Type()
-	for i := 0; i < v.NumField(); i++ {
-		builder.WriteString(fmt.Sprintf("%s:%v|", t.Field(i).Name, v.Field(i).Interface()))
+	switch v.Kind() {
+	case reflect.Map:
+		var entries []string
+		for _, k := range v.MapKeys() {
+			entries = append(entries, fmt.Sprintf("%#v:%#v|", k, v.MapIndex(k)))
+		}
+		sort.Strings(entries)
+		for _, entry := range entries {
+			builder.WriteString(entry)
+		}
+	case reflect.Struct:
+		t := v.Type()
+		for i := 0; i < v.NumField(); i++ {
+			builder.WriteString(fmt.Sprintf("%s:%#v|", t.Field(i).Name, v.Field(i)))
+		}
+	default:
+		builder.WriteString(fmt.Sprintf("%#v", item))
 	}
-
 	return builder.String()
 }
-- 
2.43.0


From 4d96f782d1862efe00e5887ddb4f8a6a1d9d449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:34 +0000
Subject: [PATCH 28/29] fix: keep removed repetitions from permitting a role
 with an empty id

slices.Compact zeroes what it drops. Compacting the permitted roles again for
each role of the principal therefore added "" to them.
---
 authorize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index c1ecc11..1de9f8f 100644
--- a/authorize.go
+++ b/authorize.go
@@ -124,8 +124,9 @@ func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvid
 		return false
 	}
 
+	allowedRoles = slices.Compact(allowedRoles)
 	for _, role := range slices.Compact(roles) {
-		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), slices.Compact(allowedRoles)...) {
+		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), allowedRoles...) {
 			return true
 		}
 	}
-- 
2.43.0


From 8cebc0bdee2d740db29331495e0a0bd1d4109550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:43 +0000
Subject: [PATCH 29/29] fix: default namespaces handed down race with
 assignments

---
 tenant.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tenant.go b/tenant.go
index c582f30..843542f 100644
--- a/tenant.go
+++ b/tenant.go
@@ -2,6 +2,7 @@ package permission
 
 import (
 	"errors"
+	"sync/atomic"
 
 	maps "github.com/oarkflow/xsync"
 )
@@ -14,7 +15,7 @@ func WithTenant(tenant any) func(*Option) {
 
 type Tenant struct {
 	descendants      maps.IMap[string, *Tenant]
-	defaultNamespace *Namespace
+	defaultNamespace atomic.Pointer[Namespace]
 	manager          *RoleManager
 	id               string
 }
@@ -50,9 +51,9 @@ func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
 		if _, ok := c.descendants.Get(descendant.id); !ok {
 			c.descendants.Set(descendant.id, descendant)
 		}
-		if c.defaultNamespace != nil {
-			descendant.AddNamespace(c.defaultNamespace)
-			descendant.SetDefaultNamespace(c.defaultNamespace.id)
+		if n := c.defaultNamespace.Load(); n != nil {
+			descendant.AddNamespace(n)
+			descendant.SetDefaultNamespace(n.id)
 		}
 	}
 	return nil
@@ -70,7 +71,7 @@ func (c *Tenant) AddScopesToNamespace(namespaceID, scopeID string) {
 
 func (c *Tenant) SetDefaultNamespace(nms string) {
 	if n, ok := c.manager.namespaces.Get(nms); ok {
-		c.defaultNamespace = n
+		c.defaultNamespace.Store(n)
 	}
 }
 
@@ -108,8 +109,8 @@ func (c *Tenant) AddPrincipalWithRole(principalID, roleID string, manageDescenda
 		return errors.New("no role available")
 	}
 	c.manager.AddData(&Data{Tenant: c.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
-	if c.defaultNamespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: c.defaultNamespace.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
+	if n := c.defaultNamespace.Load(); n != nil {
+		c.manager.AddData(&Data{Tenant: c.id, Namespace: n.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
@@ -132,8 +133,8 @@ func (c *Tenant) AddScopeToPrincipal(principalID, scopeID string, manageDescenda
 		return errors.New("no scope available")
 	}
 	c.manager.AddData(&Data{Tenant: c.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
-	if c.defaultNamespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: c.defaultNamespace.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
+	if n := c.defaultNamespace.Load(); n != nil {
+		c.manager.AddData(&Data{Tenant: c.id, Namespace: n.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
-- 
2.43.0

