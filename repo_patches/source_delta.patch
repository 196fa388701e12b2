From 2bd3ba9a46491360329544fdaa6e9d38b7272037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:14 +0000
Subject: [PATCH 1/7] fix: pow2mul rewrote powers of calls, floats, nested
 powers and non-integer exponents to a different value

---
 meshless/dev/sympytools.py | 77 +++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index a94f224..cd18876 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -5,6 +5,28 @@ import sympy
 from sympy import collect
 
 
+def _operand_start(text):
+    """Index where the operand (name, number, call, ...) ending `text` starts
+    """
+    number = re.search(r'(?<![\w.])(\d+\.?\d*|\.\d+)[eE][+-]?\d+$', text)
+    if number:
+        return number.start()
+    start = len(text)
+    while start > 0:
+        if text[start-1] in ')]':
+            depth = 0
+            while start > 0:
+                start -= 1
+                depth += (text[start] in ')]') - (text[start] in '([')
+                if depth == 0:
+                    break
+        elif text[start-1].isalnum() or text[start-1] in '_.':
+            start -= 1
+        else:
+            break
+    return start
+
+
 def pow2mul(instr):
     """Expand power to multiplications
 
@@ -21,28 +43,39 @@ def pow2mul(instr):
         The output string
 
     """
-    old_new = []
-    outstr = instr
-    search = r'\w+\*\*\s*\d+|\([^\(\)]+\)\*\*\d+'
-    for p in re.findall(search, instr):
-        var, exp = p.replace(' ', '').split('**')
-        new = '(' + '*'.join([var]*int(exp)) + ')'
-        old_new.append([p, new])
-    # putting longer patterns first to avoid wrong
-    # substitutions
-    old_new = sorted(old_new, key=lambda x: len(x[0]))[::-1]
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
-
-    old_new = []
-    for p in re.findall(r'pow\(\s*[^,]+\s*,\s*[^,\)]+\s*\)', instr):
-        var, exp = p.split('pow')[1].split(',')
-        var = var.strip()[1:] # removing left parentheses
-        exp = exp.strip()[:-1] # removing right parentheses
-        new = '(' + '*'.join(['(' + var.replace(' ', '') + ')']*int(exp)) + ')'
-        old_new.append([p, new])
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
+    def expand(var, exp):
+        return '(' + ('*'.join([var]*int(exp)) or '1') + ')'
+
+    outstr = ''
+    pos = 0
+    # only integer exponents, which are not themselves the base of a power
+    for p in re.finditer(r'\*\*\s*(\d+)(?![\w.]|\s*\*\*)', instr):
+        outstr += instr[pos:p.start()]
+        pos = p.end()
+        start = _operand_start(outstr)
+        var = outstr[start:].replace(' ', '')
+        if var:
+            outstr = outstr[:start] + expand(var, p.group(1))
+        else:
+            outstr += p.group(0)
+    outstr += instr[pos:]
+
+    # inner pow() first
+    for p in reversed(list(re.finditer(r'(?<![\w.])pow\(', outstr))):
+        depth = 1
+        commas = []
+        end = p.end()
+        while end < len(outstr) and depth > 0:
+            if depth == 1 and outstr[end] == ',':
+                commas.append(end)
+            depth += (outstr[end] in '([') - (outstr[end] in ')]')
+            end += 1
+        if len(commas) != 1 or depth > 0:
+            continue
+        var = outstr[p.end():commas[0]].strip().replace(' ', '')
+        exp = outstr[commas[0]+1:end-1].strip()
+        if exp.isdigit():
+            outstr = outstr[:p.start()] + expand('(' + var + ')', exp) + outstr[end:]
 
     return outstr
 
-- 
2.43.0


From 4372679b7d8464dfca739ab1d88cfd639ae6589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:14 +0000
Subject: [PATCH 2/7] fix: mprint_as_sparse selected the upper triangle from
 per-node indices when dofpernode is given

---
 meshless/dev/sympytools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index cd18876..aed6fd4 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -124,15 +124,14 @@ def mprint_as_sparse(m, mname, sufix=None, subs=None, header=None,
 
     num = 0
     for (i, j), v in np.ndenumerate(m):
+        if is_symmetric and i > j:
+            continue
         if dofpernode:
             nindi = (i // dofpernode) + 1
             nindj = (j // dofpernode) + 1
             i = i % dofpernode
             j = j % dofpernode
         if v:
-            if is_symmetric and i > j:
-                continue
-
             if subs:
                 v = v.subs(subs)
             num += 1
-- 
2.43.0


From b237dad8ea5978987e03b79fd252f584b01ec98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:14 +0000
Subject: [PATCH 3/7] fix: mprint_as_array expanded powers by unordered text
 replacement

---
 meshless/dev/sympytools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index aed6fd4..84aca7f 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -332,10 +332,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
                     ls.append('    {expr}'.format(expr=k*expr))
             else:
                 if pow_by_mul:
-                    v = str(v)
-                    for p in re.findall(r'\w+\*\*\d+', v):
-                        var, exp = p.split('**')
-                        v = v.replace(p, '(' + '*'.join([var]*int(exp)) + ')')
+                    v = pow2mul(str(v))
                 ls.append('{0}[pos+{1}] {2} {3}'.format(mname, i, op, v))
     string = '\n'.join(ls)
     if print_file:
-- 
2.43.0


From c04d9ef4876bcbb2f154bfed90386f429654f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:14 +0000
Subject: [PATCH 4/7] fix: mprint_as_array with use_cse overwrote the matrix of
 the caller

---
 meshless/dev/sympytools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 84aca7f..1678636 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -296,6 +296,7 @@ def mprint_as_array(m, mname, sufix=None, use_cse=False, header=None,
     ls = []
     if use_cse:
         subs, m_list = sympy.cse(m)
+        m = m.copy() # the matrix of the caller is not modified
         for i, v in enumerate(m_list):
             m[i] = v
     if sufix is None:
-- 
2.43.0


From 1f6f93a063a37a7f95bdb61e8fcd6242bc543a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:53 +0000
Subject: [PATCH 5/7] fix: transverse shear stiffness of orthotropic laminates
 was applied in the swapped direction

---
 meshless/espim/plate2d_add_k0s_cell_based.py         |  6 ++++--
 .../espim/plate2d_add_k0s_cell_based_no_smoothing.py |  6 ++++--
 meshless/espim/plate2d_add_k0s_edge_based.py         | 12 ++++++++----
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/meshless/espim/plate2d_add_k0s_cell_based.py b/meshless/espim/plate2d_add_k0s_cell_based.py
index a325762..be3f44d 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based.py
@@ -73,9 +73,11 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             k23 = tria.prop.scf_k23
             E = tria.prop.E
             h = tria.prop.h
-        E44 = k23 * E[0, 0]
+        # E44, E55: stiffness multiplying gamma_xz, gamma_yz in the terms below
+        # prop.E: [[A44, A45], [A45, A55]] with A44 for gamma_yz, A55 for gamma_xz
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
index 8b13e2e..e8ae54e 100644
--- a/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
+++ b/meshless/espim/plate2d_add_k0s_cell_based_no_smoothing.py
@@ -41,9 +41,11 @@ def add_k0s(k0, mesh, prop_from_node, alpha, maxl_from_area, silent=True):
             E = tria.prop.E
             h = tria.prop.h
 
-        E44 = k23 * E[0, 0]
+        # E44, E55: stiffness multiplying gamma_xz, gamma_yz in the terms below
+        # prop.E: [[A44, A45], [A45, A55]] with A44 for gamma_yz, A55 for gamma_xz
+        E44 = k13 * E[1, 1]
         E45 = 0 # min(k13, k23) * E[0, 1]
-        E55 = k13 * E[1, 1]
+        E55 = k23 * E[0, 0]
 
         if maxl_from_area:
             maxl = Ac**0.5
diff --git a/meshless/espim/plate2d_add_k0s_edge_based.py b/meshless/espim/plate2d_add_k0s_edge_based.py
index 778daa8..52e2f69 100644
--- a/meshless/espim/plate2d_add_k0s_edge_based.py
+++ b/meshless/espim/plate2d_add_k0s_edge_based.py
@@ -42,9 +42,11 @@ def boundary_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = tria1.prop.E
         h = tria1.prop.h
 
-    E44 = k23 * E[0, 0]
+    # E44, E55: stiffness multiplying gamma_xz, gamma_yz in the terms below
+    # prop.E: [[A44, A45], [A45, A55]] with A44 for gamma_yz, A55 for gamma_xz
+    E44 = k13 * E[1, 1]
     E45 = 0 # min(k13, k23) * E[0, 1]
-    E55 = k13 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
@@ -193,9 +195,11 @@ def interior_edge(k0, edge, n1, n2, prop_from_node, alpha, maxl_from_area):
         E = (Ac1*prop1.E + Ac2*prop2.E)/Ac
         h = (Ac1*prop1.h + Ac2*prop2.h)/Ac
 
-    E44 = k13 * E[0, 0]
+    # E44, E55: stiffness multiplying gamma_xz, gamma_yz in the terms below
+    # prop.E: [[A44, A45], [A45, A55]] with A44 for gamma_yz, A55 for gamma_xz
+    E44 = k13 * E[1, 1]
     E45 = min(k13, k23) * E[0, 1]
-    E55 = k23 * E[1, 1]
+    E55 = k23 * E[0, 0]
 
     if maxl_from_area:
         maxl = Ac**0.5
-- 
2.43.0


From 7313471efe27bbdb2ad408737553056277f0c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:52 +0000
Subject: [PATCH 6/7] fix: pow2mul handles spaces before ** and before the
 brackets of a call

---
 meshless/dev/sympytools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/meshless/dev/sympytools.py b/meshless/dev/sympytools.py
index 1678636..3cc42bc 100644
--- a/meshless/dev/sympytools.py
+++ b/meshless/dev/sympytools.py
@@ -20,6 +20,10 @@ def _operand_start(text):
                 depth += (text[start] in ')]') - (text[start] in '([')
                 if depth == 0:
                     break
+            # name of a call or of an indexed value, as in f (x)
+            before = text[:start].rstrip()
+            if before and (before[-1].isalnum() or before[-1] in '_)]'):
+                start = len(before)
         elif text[start-1].isalnum() or text[start-1] in '_.':
             start -= 1
         else:
@@ -49,7 +53,7 @@ def pow2mul(instr):
     outstr = ''
     pos = 0
     # only integer exponents, which are not themselves the base of a power
-    for p in re.finditer(r'\*\*\s*(\d+)(?![\w.]|\s*\*\*)', instr):
+    for p in re.finditer(r'\s*\*\*\s*(\d+)(?![\w.]|\s*\*\*)', instr):
         outstr += instr[pos:p.start()]
         pos = p.end()
         start = _operand_start(outstr)
-- 
2.43.0


From e2fb08051be714c045c4489c80421e97dd3b134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:07 +0000
Subject: [PATCH 7/7] fix: read_mesh read decks with mass or rigid elements
 without them instead of rejecting them

---
 meshless/espim/read_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meshless/espim/read_mesh.py b/meshless/espim/read_mesh.py
index 7a25e04..9077732 100644
--- a/meshless/espim/read_mesh.py
+++ b/meshless/espim/read_mesh.py
@@ -31,7 +31,9 @@ def read_mesh(filepath, silent=True):
         node.prop = None
 
     trias = []
-    for elem in mesh.elements.values():
+    elements = (list(mesh.elements.values()) + list(mesh.masses.values())
+                + list(mesh.rigid_elements.values()))
+    for elem in elements:
         if isinstance(elem, CTRIA3):
             elem.edges = []
             elem.prop = None
-- 
2.43.0

