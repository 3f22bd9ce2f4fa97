From 4063aa36e98a87f17711696b646502ff5c2d9c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 01/29] fix: MemSequence and MemPriority ran into Python 2's
 xrange on every tick

---
 b3/composites/mempriority.py | 2 +-
 b3/composites/memsequence.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/b3/composites/mempriority.py b/b3/composites/mempriority.py
index 1e3a593..17c9c36 100644
--- a/b3/composites/mempriority.py
+++ b/b3/composites/mempriority.py
@@ -12,7 +12,7 @@ class MemPriority(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
diff --git a/b3/composites/memsequence.py b/b3/composites/memsequence.py
index 62d6bbf..3fae91e 100644
--- a/b3/composites/memsequence.py
+++ b/b3/composites/memsequence.py
@@ -12,7 +12,7 @@ class MemSequence(b3.Composite):
     def tick(self, tick):
         idx = tick.blackboard.get('running_child', tick.tree.id, self.id)
 
-        for i in xrange(idx, len(self.children)):
+        for i in range(idx, len(self.children)):
             node = self.children[i]
             status = node._execute(tick)
 
-- 
2.43.0


From 29599607977e9587b6e4a56c29835851ae6b62c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 02/29] fix: RepeatUntilSuccess/Failure with max_loop=0 raised
 UnboundLocalError instead of returning a status

---
 b3/decorators/repeatuntilfailure.py | 1 +
 b3/decorators/repeatuntilsuccess.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 64611a7..0f3632a 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -16,6 +16,7 @@ class RepeatUntilFailure(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index 7744859..a9880aa 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -16,6 +16,7 @@ class RepeatUntilSuccess(b3.Decorator):
             return b3.ERROR
 
         i = tick.blackboard.get('i', tick.tree.id, self.id)
+        status = b3.ERROR
         while self.max_loop < 0 or i < self.max_loop:
             status = self.child._execute(tick)
 
-- 
2.43.0


From 07ecf249d131cfa96b02bfa5e1e26869a5ab7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 03/29] fix: Limiter forgot its count every time its child
 completed and so never limited anything

---
 b3/decorators/limiter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/b3/decorators/limiter.py b/b3/decorators/limiter.py
index 73e5e3c..40d7ae1 100644
--- a/b3/decorators/limiter.py
+++ b/b3/decorators/limiter.py
@@ -9,7 +9,10 @@ class Limiter(b3.Decorator):
         self.max_loop = max_loop
 
     def open(self, tick):
-        tick.blackboard.set('i', 0, tick.tree.id, self.id)
+        # the count must survive the close/open that follows every completed
+        #   child, otherwise the limit is never reached
+        if tick.blackboard.get('i', tick.tree.id, self.id) is None:
+            tick.blackboard.set('i', 0, tick.tree.id, self.id)
 
     def tick(self, tick):
         if not self.child:
-- 
2.43.0


From d3ba556564a173839f31901e1981c28983354a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 04/29] fix: BehaviorTree.dump reversed children and lost
 decorator limits; load could not build decorators

---
 b3/core/behaviortree.py             | 11 ++++++++---
 b3/decorators/limiter.py            |  2 +-
 b3/decorators/maxtime.py            |  2 +-
 b3/decorators/repeater.py           |  2 +-
 b3/decorators/repeatuntilfailure.py |  2 +-
 b3/decorators/repeatuntilsuccess.py |  2 +-
 6 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/b3/core/behaviortree.py b/b3/core/behaviortree.py
index 5acc15b..5aee274 100644
--- a/b3/core/behaviortree.py
+++ b/b3/core/behaviortree.py
@@ -33,13 +33,15 @@ class BehaviorTree(object):
                 cls = getattr(b3, spec['name'])
 
             else:
-                raise AttibuteError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
+                raise AttributeError('BehaviorTree.load: Invalid node name "%s"'%spec['name'])
 
             node = cls()
             node.id = spec['id'] or node.id
             node.title = spec['title'] or node.title
             node.description = spec['description'] or node.description
             node.properties = spec['properties'] or node.properties
+            for k in spec.get('parameters') or {}:
+                setattr(node, k, spec['parameters'][k])
             nodes[key] = node
 
         for key in data['nodes']:
@@ -80,6 +82,9 @@ class BehaviorTree(object):
             spec['title'] = node.title
             spec['description'] = node.description
             spec['properties'] = node.properties
+            # constructor arguments of decorators and timed actions
+            spec['parameters'] = dict((k, getattr(node, k))
+                for k in ('max_loop', 'max_time', 'end_time') if hasattr(node, k))
 
             name = node.__class__.__name__
             if not hasattr(b3, name) and name not in custom_names:
@@ -93,11 +98,11 @@ class BehaviorTree(object):
 
             if node.category == b3.COMPOSITE and hasattr(node, 'children'):
                 children = []
-                for c in reversed(node.children):
+                for c in node.children:     # keep the order in which they are ticked
                     children.append(c.id)
                     stack.append(c)
                 spec['children'] = children
-            elif node.category == b3.DECORATOR and hasattr(node, 'child'):
+            elif node.category == b3.DECORATOR and getattr(node, 'child', None):
                 stack.append(node.child)
                 spec['child'] = node.child.id
 
diff --git a/b3/decorators/limiter.py b/b3/decorators/limiter.py
index 40d7ae1..815ecd6 100644
--- a/b3/decorators/limiter.py
+++ b/b3/decorators/limiter.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['Limiter']
 
 class Limiter(b3.Decorator):
-    def __init__(self, child, max_loop):
+    def __init__(self, child=None, max_loop=0):
         super(Limiter, self).__init__(child)
 
         self.max_loop = max_loop
diff --git a/b3/decorators/maxtime.py b/b3/decorators/maxtime.py
index b06a3ef..e8c4f49 100644
--- a/b3/decorators/maxtime.py
+++ b/b3/decorators/maxtime.py
@@ -4,7 +4,7 @@ import time
 __all__ = ['MaxTime']
 
 class MaxTime(b3.Decorator):
-    def __init__(self, child, max_time=0):
+    def __init__(self, child=None, max_time=0):
         super(MaxTime, self).__init__(child)
 
         self.max_time = max_time
diff --git a/b3/decorators/repeater.py b/b3/decorators/repeater.py
index 8de066f..ab97811 100644
--- a/b3/decorators/repeater.py
+++ b/b3/decorators/repeater.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['Repeater']
 
 class Repeater(b3.Decorator):
-    def __init__(self, child, max_loop=-1):
+    def __init__(self, child=None, max_loop=-1):
         super(Repeater, self).__init__(child)
 
         self.max_loop = max_loop
diff --git a/b3/decorators/repeatuntilfailure.py b/b3/decorators/repeatuntilfailure.py
index 0f3632a..8518e28 100644
--- a/b3/decorators/repeatuntilfailure.py
+++ b/b3/decorators/repeatuntilfailure.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['RepeatUntilFailure']
 
 class RepeatUntilFailure(b3.Decorator):
-    def __init__(self, child, max_loop=-1):
+    def __init__(self, child=None, max_loop=-1):
         super(RepeatUntilFailure, self).__init__(child)
 
         self.max_loop = max_loop
diff --git a/b3/decorators/repeatuntilsuccess.py b/b3/decorators/repeatuntilsuccess.py
index a9880aa..74a5a89 100644
--- a/b3/decorators/repeatuntilsuccess.py
+++ b/b3/decorators/repeatuntilsuccess.py
@@ -3,7 +3,7 @@ import b3
 __all__ = ['RepeatUntilSuccess']
 
 class RepeatUntilSuccess(b3.Decorator):
-    def __init__(self, child, max_loop=-1):
+    def __init__(self, child=None, max_loop=-1):
         super(RepeatUntilSuccess, self).__init__(child)
 
         self.max_loop = max_loop
-- 
2.43.0


From d26551180ff2368138c9a4354b3947d9bff20e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 05/29] fix: kequation(0, expr) kept a plain int on one side,
 which crashed any leaf calling .has() on it

---
 ikbtbasics/kin_cl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index c50541b..9110625 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -48,8 +48,10 @@ sp.var('x')
 #  Kinematic Equation class
 class kequation:
     def __init__(self,LHS=x,RHS=x):
-        self.LHS = LHS
-        self.RHS = RHS
+        # either side may be a plain number, e.g. kequation(0, expr), but the
+        # leaves call .has() etc. on both
+        self.LHS = sp.sympify(LHS)
+        self.RHS = sp.sympify(RHS)
         self.string = str(LHS) + ' = '+ str(RHS)
 
     def prt(self):
-- 
2.43.0


From 5c3fc4fa8650d4091160f483c37d27778b2b8a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 06/29] fix: sincos_solve aborted the whole solve instead of
 declining an equation it cannot solve

---
 ikbtleaves/sincos_solver.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ikbtleaves/sincos_solver.py b/ikbtleaves/sincos_solver.py
index 6619c03..330add2 100644
--- a/ikbtleaves/sincos_solver.py
+++ b/ikbtleaves/sincos_solver.py
@@ -212,9 +212,11 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                 targument = (u.eqntosolve.LHS-B)/A
                 # a solution that still contains its own unknown is not a
                 # solution; this guard is the analogue of the one commented
-                # out in sinANDcos_solver.
-                assert(not targument.has(u.symbol)), \
-                    'sincos_solve (arcsin): solution contains itself: ' + str(targument)
+                # out in sinANDcos_solver.  It also catches A == 0 (the unknown
+                # appears only in a form the match cannot see).
+                if A == 0 or targument.has(u.symbol):
+                    print('sincos_solve (arcsin): solution contains itself: ', targument)
+                    return b3.FAILURE
                 sol1 = sp.asin( targument  )
                 sol2 = sp.pi - sp.asin( targument  )  
                 u.argument = targument
@@ -244,8 +246,9 @@ class sincos_solve(b3.Action):    # Solve asincos equation pairs
                         B = 0
                             
                     targument = (u.eqntosolve.LHS-B)/A
-                    assert(not targument.has(u.symbol)), \
-                        'sincos_solve (arccos): solution contains itself: ' + str(targument)
+                    if A == 0 or targument.has(u.symbol):
+                        print('sincos_solve (arccos): solution contains itself: ', targument)
+                        return b3.FAILURE
                     sol1 =   sp.acos( targument  )
                     sol2 = - sp.acos( targument  )  
                     u.argument = targument
-- 
2.43.0


From a70c485ca1f9abd82837ee664178eff74e69c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 07/29] fix: tan_id reported an already solved unknown as
 solvable, so it was solved a second time

---
 ikbtleaves/tan_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ikbtleaves/tan_solver.py b/ikbtleaves/tan_solver.py
index 177257d..100de32 100644
--- a/ikbtleaves/tan_solver.py
+++ b/ikbtleaves/tan_solver.py
@@ -217,7 +217,9 @@ class tan_id(b3.Action):    # action leaf for ID eqns solved by atan2()
             #continue #stop looking at equations for the same unknown                      
         tick.blackboard.set('curr_unk', u)
         tick.blackboard.set('unknowns',unknowns)   # the current list of unknowns
-        if u.solvable_tan:
+        # an unknown which is already solved must not be handed to tan_solve
+        # again: its solutions would be appended (and a node added) twice.
+        if u.solvable_tan and not u.solved:
             return b3.SUCCESS
         else:
             return b3.FAILURE
-- 
2.43.0


From f407d66ac1fedcc7da06aa1ef5caba39084da168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 08/29] fix: solution sets named undefined first-joint
 versions, mixed up solution branches, and crashed when nothing was solved

---
 ikbtbasics/ik_classes.py      | 12 +++++++-----
 ikbtfunctions/output_latex.py |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index fcf3dfe..60bbd79 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -199,7 +199,7 @@ class Robot:
     # class Robot
     def make_LHS_versions(self):
         nvers = len(self.solListMatrix)  # n versions
-        nunks = len(self.solListMatrix[0])  # n solved unknowns (cols)
+        nunks = len(self.solution_nodes)    # n solved unknowns (cols)
         for row in range(nvers): # go through versions
             # get subs dict for this row
             subdict = {}
@@ -207,10 +207,10 @@ class Robot:
                 unk = n.unknown.name
                 subdict[unk] = self.solListMatrix[row][col]
 
-            nsols = self.solution_nodes[col].unknown.nsolutions
             #LHS: variable version #
             eqns_row = []
             for col in range(nunks): # go through unks in solution order
+                nsols = self.solution_nodes[col].unknown.nsolutions
                 #make an equation
             #tmp = '$' + sp.latex(node.symbol) + '$'
             #tmp = theta_expand(tmp)
@@ -262,9 +262,11 @@ class Robot:
 
             else: # first time through
                 #print('first solved unk:', u.details())
-                for vn in u.versionNames:  #start new row for all solns of first solved unk.
-                    solListMatrix.append([vn])
-                    #solListMatrix.append([u.name+'v'+'1'])
+                # (same naming as the later columns: make_LHS_versions() defines
+                #  th_1v1, th_1v2, ..., not the solution names th_1s1, ...)
+                for i in range(u_nsols):  #start new row for all solns of first solved unk.
+                    u.LHSversionNames.append(u.name + 'v' + str(i+1))
+                    solListMatrix.append([u.LHSversionNames[i]])
                     #print('create_solution_sets: creating ', u, solListMatrix)
             #print('---')
             #print(solListMatrix)
diff --git a/ikbtfunctions/output_latex.py b/ikbtfunctions/output_latex.py
index 88f7781..d7f4043 100644
--- a/ikbtfunctions/output_latex.py
+++ b/ikbtfunctions/output_latex.py
@@ -322,7 +322,7 @@ The following are the sets of joint solutions (poses) for this manipulator:
 
 
     ####################  Solution sets Table form
-    ncols = len(list(Robot.solutionSet)[0])
+    ncols = max(len(Robot.solution_nodes), 1)   # (there may be no solution at all)
     colstr = '|' + 'l|'*ncols
     tablestr = r'\section{Solution Set v3} \begin{tabular}{' + colstr + r'}\hline' + eol
     for s in Robot.solutionSet:
-- 
2.43.0


From eef68c66df428425a80476d1e5b39ebfbec30d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 09/29] fix: generated inverse kinematics python was not valid
 python and left out some equations

---
 ikbtfunctions/output_python.py | 44 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 8853fbf..842920d 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -177,8 +177,6 @@ from math import asin
 pi = np.pi
 
 '''
-    fixed_name = Robot.name.replace(r'_', r'\_')  # this is for LaTex output
-    fixed_name = fixed_name.replace('test: ','')
     orig_name  = Robot.name.replace('test: ', '')
 
     DirName = 'CodeGen/Python/'
@@ -193,10 +191,10 @@ pi = np.pi
     if(Robot.Mech.pvals != {}):  # if we have numerical values stored
         for p in Robot.params:
             val = str(Robot.Mech.pvals[p])
-            tmp += str(p) + ' = ' + val + '\n'
+            tmp += '    ' + str(p) + ' = ' + val + '\n'   # these are inside the function
     else:                        # no stored numerical values
         for p in Robot.params:
-            tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
+            tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
 
@@ -206,7 +204,8 @@ pi = np.pi
 
     indent = '    ' # 4 spaces
 
-    funcname = 'ikin_'+fixed_name 
+    # robot names such as Raven-II are not python identifiers
+    funcname = 'ikin_' + re.sub(r'\W', '_', orig_name)
     print('''
 # Auto Generated Code to solve the unknowns
 #        parameter:  T   4x4 numerical target for T06
@@ -214,7 +213,7 @@ pi = np.pi
 ''', file=f)
     print('def', funcname +'(T):', file=f) # no indent
     print(indent+'if(T.shape != (4,4)):', file=f)
-    print(indent*2 + 'print ( "bad input to "+funcname'+')', file=f)
+    print(indent*2 + 'print ( "bad input to ' + funcname + '")', file=f)
     print(indent*2 + 'quit()', file=f)
     print('''#define the input vars 
     r_11 = T[0,0]
@@ -268,22 +267,15 @@ pi = np.pi
             # get the solution equation version
             solEqnVer = Robot.FinalEqnMatrix[rowindex][colindex]
             print('Python Output: Solution Equation Version: ', solEqnVer)
-            if re.search('asin', str(solEqnVer.RHS)) or re.search('acos', str(solEqnVer.RHS)):
+            tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
+            # every argument of asin()/acos() has to be in range
+            trigargs = sorted(str(e.args[0]) for e in solEqnVer.RHS.atoms(sp.asin, sp.acos))
+            if len(trigargs) > 0:
                 print ('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                print(indent + 'if (solvable_pose and abs', tmp.group(0), ' > 1):', file=f)
-                print(indent*2 + 'solvable_pose = False', file=f)
-                print(indent + 'else:', file=f)
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent*2 + tmp, file=f)
-            if re.search('atan', str(solEqnVer.RHS)):
-                print('  Found atan2 solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-                tmp = re.search('\((.*)\)',str(solEqnVer.RHS))
-                tmp = str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS)
-                print(indent + tmp, file=f)
-            if node.solvemethod == 'algebra':
-                print('  Found algebra solution ... ' , solEqnVer.LHS , ' = ', solEqnVer.RHS)
-                print(indent + str(solEqnVer.LHS) + ' = ' + str(solEqnVer.RHS), file=f)
+                for arg in trigargs:
+                    print(indent + 'if (abs(' + arg + ') > 1):', file=f)
+                    print(indent*2 + 'return(False)', file=f)
+            print(indent + tmp, file=f)
 
     print('''
 ##################################
@@ -379,12 +371,16 @@ if __name__ == "__main__":
 
     list = ''' + funcname + '''(T1)
 
+    if list is False:
+        print('the test pose is not reachable')
+        list = []
+
     i = 0
     for sol in list:
-        print ''
-        print 'Solution ', i
+        print('')
+        print('Solution ', i)
         i+=1
-        print sol
+        print(sol)
 
 
     ''', file=f)
-- 
2.43.0


From f46a5f570d7b6ba6bcbe4e5b5dd56f4e6b663575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 10/29] fix: generated forward kinematics python left joints
 without a subscript (Wrist A, B, C) undefined

---
 ikbtfunctions/output_python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index 842920d..d3e00aa 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -122,8 +122,9 @@ pi = np.pi
                         if s in str(v1) and len(str(v1).split('_')[1]) == 1: # avoid soa subscripts
                             soa += f' {str(v1)} +'
                 print(indent + soa[:-1], file=f)
-            else:
-                print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
+                continue
+        # (names without a subscript, e.g. the Wrist's A,B,C, are joints too)
+        print(indent + f'{str(v)} = 1.0   # 1.0= dummy value',file=f)
 
     funcname = 'Fkin_'+orig_name
     print('''
-- 
2.43.0


From 0d39376f454aeff6799eda87f714ccad1779b6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 11/29] fix: an interrupted or concurrent run left a half
 written fk pickle that crashed every later run

---
 ikbtbasics/ik_classes.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 60bbd79..d18f644 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -73,19 +73,25 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
 
     if not os.path.isdir(pickle_dir):  # if this doesn't exist, create it.
         print('Creating a new pickle directory: ./'+pickle_dir)
-        os.mkdir(pickle_dir)
+        os.makedirs(pickle_dir, exist_ok=True)  # (another run may just have created it)
 
     name = pickle_dir + rname + '_pickle.p'
 
     print('kinematics pickle: trying to open ', name,' in ', os.getcwd())
 
+    cached = None
     if(os.path.isfile(name)):
-        with open(name, 'rb') as pick:
-            print('\Trying to read pre-computed forward kinematics from '+name)
-            [m, R, unknowns]  = pickle.load(pick)
+        print('Trying to read pre-computed forward kinematics from '+name)
+        try:
+            with open(name, 'rb') as pick:
+                [m, R, unknowns]  = cached = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
-    else:
+        except Exception as e:   # damaged or unreadable file: same as no file
+            print('Could not read ', name, ': ', repr(e))
+            cached = None
+
+    if cached is None:
         #print 'WRONG - quitting, error: ',sys.exc_info()[0]
         #sys.exit
         # set up mechanism object instance
@@ -108,8 +114,21 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
         #R.generate_solution_nodes(unks) # generate solution nodes
 
         print(' Storing kinematics pickle for '+rname + '('+name+')')
-        with open(name,'wb') as pf:
-            pickle.dump( [m, R, unks], pf, protocol=pprotocol)
+        # never leave a half written pickle under its final name, even if this run
+        #   is killed or another run is working on the same robot
+        tmpname = name + '.' + str(os.getpid()) + '.tmp'
+        try:
+            with open(tmpname,'wb') as pf:
+                pickle.dump( [m, R, unks], pf, protocol=pprotocol)
+                pf.flush()
+                os.fsync(pf.fileno())
+            os.replace(tmpname, name)
+        except OSError as e:     # e.g. full disk: go on without the stored pickle
+            print('Could not store ', name, ': ', repr(e))
+            try:
+                os.remove(tmpname)
+            except OSError:
+                pass
         unknowns = unks    # be sure to return updated unknown list (including SOAs)
 
     return [m,R,unknowns]
-- 
2.43.0


From e2f08fbf22d98e42b904fb5d8eb7a7188debf852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 12/29] fix: two runs started together could both try to create
 logs/ and one of them crashed

---
 ikSolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikSolver.py b/ikSolver.py
index 867102a..33e5b83 100644
--- a/ikSolver.py
+++ b/ikSolver.py
@@ -245,7 +245,7 @@ ikbt.root = topnode
 logdir = 'logs/'
 
 if not os.path.isdir(logdir):  # if this doesn't exist, create it.
-    os.mkdir(logdir)
+    os.makedirs(logdir, exist_ok=True)   # (another run may just have created it)
 
 #
 #     Logging setup    ###   Enable these for future debugging
-- 
2.43.0


From 7a4129211e734630e49fff31efe45e23a1d92c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 13/29] fix: parameter names and values came from an old fk
 pickle, and ca/sa constants were lost, on a cache hit

---
 ikbtbasics/ik_classes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index d18f644..0b7b113 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -87,6 +87,15 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
                 [m, R, unknowns]  = cached = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
+            # parameter names and values do not enter the FK equations, so use the
+            #   current ones.  Only the cos/sin(alpha) constants, which
+            #   forward_kinematics() adds with a string value, come from the pickle.
+            added = {p: m.pvals[p] for p in m.params
+                        if p not in constants and isinstance(m.pvals.get(p), str)}
+            constants.extend(added)
+            pvals.update(added)
+            m.params = constants
+            m.pvals = pvals
         except Exception as e:   # damaged or unreadable file: same as no file
             print('Could not read ', name, ': ', repr(e))
             cached = None
-- 
2.43.0


From ff6989e9ae7cd3219533bb031bd1cc44035bbc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 14/29] fix: robot table listed a robot which is not defined,
 could not find DZhang, and MiniDD lacked a joint type

---
 ikbtfunctions/ik_robots.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 33ace9c..5a5e1be 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -45,15 +45,14 @@ def robot_params(name):
             'MiniDD', 
             'Olson13',
             'Stanford', 
-            'Chair6DOF',  # below not solvable yet
-            'Khat6DOF',    
+            'Khat6DOF',   # below not solvable yet    
             'Craig417', 
             'KawasakiRS05L',
             'KawasakiRS007L',
             'Khat6DOF',
             'Raven-II',
             'Wachtveitl', 'Frei13', 'Parkman13', 'Palm13', 'Minder13', 'Mackler13',
-            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4'
+            'Axtman13', 'Srisuan11', 'MiniDD', 'ICP5p5_A21', 'KR16', 'Issue4',
             'DZhang',
             'JennyGuoSp24']
     
@@ -366,7 +365,7 @@ def robot_params(name):
             [ -sp.pi/2 ,     0  ,   0   , th_5  ],
             [   0      ,     0  ,   0   ,   0   ]     
             ])
-        vv = [0,1,1,1,1]
+        vv = [0,1,1,1,1,1]
 
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5) ]
 
-- 
2.43.0


From e3443d2e1638b6f92b12644e3aac097e63fba39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 15/29] fix: Mackler13 uses the parameter h but did not declare
 it, so its generated code was undefined

---
 ikbtfunctions/ik_robots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ikbtfunctions/ik_robots.py b/ikbtfunctions/ik_robots.py
index 5a5e1be..5ffc8ac 100644
--- a/ikbtfunctions/ik_robots.py
+++ b/ikbtfunctions/ik_robots.py
@@ -480,8 +480,8 @@ def robot_params(name):
         sp.var('l_3')
         vv = [0, 1, 1, 1, 1, 0]
         variables = [unknown(d_1), unknown(th_2), unknown(th_3), unknown(th_4), unknown(th_5)]
-        params = [l_1, l_2, l_3]
-        pvals = {l_1:2, l_2:2, l_3: 4}
+        params = [h, l_1, l_2, l_3]
+        pvals = {h:1, l_1:2, l_2:2, l_3: 4}
 
     if(name == 'Minder13'):
         # Minder 2013sp
-- 
2.43.0


From abebadfea5d59885304cfdddd3d158b4d955a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 16/29] fix: generated solution sets, declarations and graph
 edges came out in a random order from run to run

---
 ikbtbasics/ik_classes.py      | 9 +++++----
 ikbtfunctions/output_cpp.py   | 2 +-
 ikbtfunctions/output_latex.py | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 0b7b113..5a77b41 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -301,14 +301,15 @@ class Robot:
         print('====== SOLUTION LIST COMPLETED: ================')
 
         self.solListMatrix = solListMatrix  # soltions in list-of-lists form (nversions rows by nunknowns colums)
-        self.solutionSet = set()            # solutions as a set of tuples (v2 output compatibility)
+        self.solutionSet = []               # solutions as distinct tuples, in version order (v2 output compatibility)
 
         for row in solListMatrix:
             print(row)
         #
-        #   code/Latex generaters want a set of tuples(!)
+        #   code/Latex generaters want distinct tuples (in the same order every run)
         #
-            self.solutionSet.add(tuple(row))
+            if tuple(row) not in self.solutionSet:
+                self.solutionSet.append(tuple(row))
 
         print('======  SOLUTION LIST IS Set of tuples: self.solutionSet ==============')
 
@@ -474,7 +475,7 @@ def sum_of_angles_sub(R, expr, variables):
             return 0
         return -sum(1 for v in d.values() if v != 0)
 
-    matches = sorted(matches, key=_soa_nargs)
+    matches = sorted(matches, key=lambda m: (_soa_nargs(m), str(m)))
 
     for m in matches: # analyze each match
         d  = m.match(sp.cos(aw + bw + cw))
diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 771d17b..e12c9ee 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -95,7 +95,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
 
     #  Variable Declarations
     tmp = 'double'
-    for v in sol_vars:
+    for v in sorted(sol_vars):   # (same order every run)
         tmp += ' ' + str(v) + ','
 
     var_decl_str = tmp[:-1] + ';'   # drop trailing comma and end the line
diff --git a/ikbtfunctions/output_latex.py b/ikbtfunctions/output_latex.py
index d7f4043..ddca154 100644
--- a/ikbtfunctions/output_latex.py
+++ b/ikbtfunctions/output_latex.py
@@ -287,7 +287,7 @@ The following is the abstract representation of solution graph for this manipula
     sameline = '     '
     sepstr = sameline
     print('test: Starting Graph output')
-    for edge in graph:
+    for edge in sorted(graph, key=str):   # (same order every run)
         i+=1
         if i%2==0:
             sepstr = eol
-- 
2.43.0


From 7bd0f8185b8cbf0776f49183d26d54f21aeab605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:45 +0000
Subject: [PATCH 17/29] fix: sinANDcos solved equations whose coefficients are
 zero in every pose as atan2(0,0)

---
 ikbtleaves/sinANDcos_solver.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index 2a7b134..9b826b4 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -90,6 +90,28 @@ class test_sinandcos_id(b3.Action):    # tester for sincos ID
       return b3.SUCCESS
       
 
+def vanishes(R, expr):
+    # Is expr zero in every pose of this robot?   (e.g. r_13 of a planar arm)
+    # decided numerically:  put the forward kinematics in for the pose entries and
+    #                       evaluate at two arbitrary joint configurations
+    if expr == 0:
+        return True
+    if not hasattr(R, 'Mech'):   # (equations of a unit test)
+        return False
+    for e in reversed(R.kequation_aux_list):   # th_23 = th_2 + th_3 etc.
+        if e.LHS.is_Symbol:
+            expr = expr.subs(e.LHS, e.RHS)
+    Td = ik_lhs()
+    pose = {Td[i,j]: R.Mech.T_06[i,j] for i in range(3) for j in range(4)}
+    expr = expr.subs(pose, simultaneous=True)
+    syms = sorted(expr.free_symbols, key=str)
+    for k in [1, 2]:
+        vals = {s: 0.6 + k*(0.37 + 0.29*i) for i,s in enumerate(syms)}
+        if abs(sp.N(expr.subs(vals))) > 1.0e-9:
+            return False
+    return True
+
+
 class sinandcos_id(b3.Action):    # action leaf for sincosid     
     def tick(self, tick):
         unknowns = tick.blackboard.get('unknowns')   # the current list of unknowns
@@ -133,6 +155,8 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
                   if not d[Cw].has(u.symbol):
+                      if vanishes(R, d[Aw]) and vanishes(R, d[Bw]):
+                          continue   # 0*sin(u) + 0*cos(u) says nothing about u
                       u.readytosolve = True
                       u.eqntosolve   = kc.kequation(lhs, es)
                       u.solvemethod += 'sinANDcos'
-- 
2.43.0


From b68c0ec4f5128dbb9285c639c45e2317b35c6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 18/29] fix: arms with antiparallel joint axes (difference of
 two joint angles) crashed the solver

---
 ikbtbasics/ik_classes.py | 2 ++
 ikbtleaves/sum_id.py     | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 5a77b41..6604b94 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -501,6 +501,8 @@ def sum_of_angles_sub(R, expr, variables):
 
         newjoint = None
         tmpeqn = None
+        if not all(v in [u.symbol for u in variables] for v in varlist):
+            found2 = found3 = False   # e.g. th_1 - th_3 (antiparallel axes): not a sum of joints
         if(found2 or found3):  # we've got a SOA!
 
             # generate index of the SOA variable
diff --git a/ikbtleaves/sum_id.py b/ikbtleaves/sum_id.py
index cd88b98..8297be5 100644
--- a/ikbtleaves/sum_id.py
+++ b/ikbtleaves/sum_id.py
@@ -26,6 +26,9 @@ from ikbtbasics.ik_classes import *     # special classes for Inverse kinematics
 import b3 as b3          # behavior trees     
  
 
+def find_xy(thx, thy):   # th_2, th_3 -> th_23
+    return sp.var('th_' + ''.join(sorted(str(thx)[3:] + str(thy)[3:])))
+
 class sum_id(b3.Action):   ##  we should change this name since its a transform
 
     def tick(self, tick):
@@ -79,14 +82,14 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                         while len(sub_sin) > 0 and not found:
                             sin_expr = sub_sin.pop()
                             d = sin_expr.match(sp.sin(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0: #has to be joint variable
+                            if d[thx].is_Symbol and d[sgn] == 1 and d[thy].is_Symbol: #has to be joint variable
                                 found = True
 
                             
                         while len(sub_cos) > 0 and not found:
                             cos_expr = sub_cos.pop()
                             d = cos_expr.match(sp.cos(thx + sgn * thy))
-                            if d[thx] != 0 and d[sgn] != 0 and d[thy] != 0:
+                            if d[thx].is_Symbol and d[sgn] == 1 and d[thy].is_Symbol:
                                 found = True
                             
                         if found:
-- 
2.43.0


From a8e292db1ed5bbbe487339b442aa44c1e5c5f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:04 +0000
Subject: [PATCH 19/29] fix: sum_id took a joint angle plus a constant
 (sin(th_2 + l_1)) for a sum of two joint angles

---
 ikbtleaves/sum_id.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ikbtleaves/sum_id.py b/ikbtleaves/sum_id.py
index 8297be5..0809e9d 100644
--- a/ikbtleaves/sum_id.py
+++ b/ikbtleaves/sum_id.py
@@ -26,6 +26,9 @@ from ikbtbasics.ik_classes import *     # special classes for Inverse kinematics
 import b3 as b3          # behavior trees     
  
 
+def is_joint_angle(s):   # th_2 or th_23, but not l_1 (a constant angle offset)
+    return s.is_Symbol and str(s).startswith('th_')
+
 def find_xy(thx, thy):   # th_2, th_3 -> th_23
     return sp.var('th_' + ''.join(sorted(str(thx)[3:] + str(thy)[3:])))
 
@@ -82,14 +85,14 @@ class sum_id(b3.Action):   ##  we should change this name since its a transform
                         while len(sub_sin) > 0 and not found:
                             sin_expr = sub_sin.pop()
                             d = sin_expr.match(sp.sin(thx + sgn * thy))
-                            if d[thx].is_Symbol and d[sgn] == 1 and d[thy].is_Symbol: #has to be joint variable
+                            if d[sgn] == 1 and is_joint_angle(d[thx]) and is_joint_angle(d[thy]): #has to be joint variable
                                 found = True
 
                             
                         while len(sub_cos) > 0 and not found:
                             cos_expr = sub_cos.pop()
                             d = cos_expr.match(sp.cos(thx + sgn * thy))
-                            if d[thx].is_Symbol and d[sgn] == 1 and d[thy].is_Symbol:
+                            if d[sgn] == 1 and is_joint_angle(d[thx]) and is_joint_angle(d[thy]):
                                 found = True
                             
                         if found:
-- 
2.43.0


From 0f2989b49f2eb545203b38cedc1dedea8f53cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:04 +0000
Subject: [PATCH 20/29] fix: simultaneous equation solver accepted pairs with
 other terms in the unknown (sin(u)**2) and published a solution containing
 itself

---
 ikbtleaves/two_eqn_m7.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ikbtleaves/two_eqn_m7.py b/ikbtleaves/two_eqn_m7.py
index 69306c6..5de9723 100644
--- a/ikbtleaves/two_eqn_m7.py
+++ b/ikbtleaves/two_eqn_m7.py
@@ -59,6 +59,15 @@ def canonical_second_eqn(u, e1, e2):
     B = e1.coeff(sp.cos(u))
     if A == 0 and B == 0:
         return None
+
+    #  neither A, B nor what is left of either equation (C, D) may depend on u, e.g. sin(u)**2
+    if A.has(u) or B.has(u):
+        return None
+    for e in [e1, e2]:
+        rest = e - e.coeff(sp.sin(u))*sp.sin(u) - e.coeff(sp.cos(u))*sp.cos(u)
+        if rest.expand().has(u):
+            return None
+
     a2 = e2.coeff(sp.cos(u))
     b2 = -e2.coeff(sp.sin(u))
     if a2 == A and b2 == B:
-- 
2.43.0


From 2feed0f94bae51128b2487da8028bb7fb4a59cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:04 +0000
Subject: [PATCH 21/29] fix: sinANDcos solver accepted coefficients containing
 the unknown (sin(u)*cos(u)) and published a solution containing itself

---
 ikbtleaves/sinANDcos_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtleaves/sinANDcos_solver.py b/ikbtleaves/sinANDcos_solver.py
index 9b826b4..12df97f 100644
--- a/ikbtleaves/sinANDcos_solver.py
+++ b/ikbtleaves/sinANDcos_solver.py
@@ -154,7 +154,7 @@ class sinandcos_id(b3.Action):    # action leaf for sincosid
                       print('Sin AND Cos identifying: ', es)
                       print('Aw: ', d[Aw], ' Bw: ', d[Bw], ' Cw: ', d[Cw])
                   
-                  if not d[Cw].has(u.symbol):
+                  if not any(d[w].has(u.symbol) for w in [Aw, Bw, Cw]):   # (e.g. sin(u)*cos(u))
                       if vanishes(R, d[Aw]) and vanishes(R, d[Bw]):
                           continue   # 0*sin(u) + 0*cos(u) says nothing about u
                       u.readytosolve = True
-- 
2.43.0


From 4d7e01f56fec65521481832287a04e14cbf4e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 22/29] fix: code generation failed with KeyError for robots
 with values for only some of the parameters

---
 ikbtfunctions/output_python.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ikbtfunctions/output_python.py b/ikbtfunctions/output_python.py
index d3e00aa..207cd4e 100644
--- a/ikbtfunctions/output_python.py
+++ b/ikbtfunctions/output_python.py
@@ -90,12 +90,11 @@ pi = np.pi
 
     print('#\n#      Robot Parameters \n#',file=f)
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += str(p) + ' = ' + val + '\n'
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
@@ -189,12 +188,11 @@ pi = np.pi
 
     # parameter Declarations (a_3, d_5, etc).
     tmp = '\n'
-    if(Robot.Mech.pvals != {}):  # if we have numerical values stored
-        for p in Robot.params:
+    for p in Robot.params:
+        if p in Robot.Mech.pvals:  # if we have a numerical value stored
             val = str(Robot.Mech.pvals[p])
             tmp += '    ' + str(p) + ' = ' + val + '\n'   # these are inside the function
-    else:                        # no stored numerical values
-        for p in Robot.params:
+        else:                      # no stored numerical value
             tmp += '    ' + str(p) + ' = XXXXX    # deliberate undeclared error!  USER needs to give numerical value \n'
     par_decl_str = tmp
 
-- 
2.43.0


From dbd872242affa1d53392b439c98cb876cea8211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 23/29] fix: generated C++ had '\' instead of '//' before the
 comment of each parameter and did not compile

---
 ikbtfunctions/output_cpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index e12c9ee..41cac6d 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -103,7 +103,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # parameter Declarations
     tmp = '\n'
     for p in Robot.params:   # other DH dimensional params (l_3 etc)
-        tmp += 'double '+str(p) + ' = XXXXX ; \\ deliberate undeclared error!  USER needs to give numerical value\n'
+        tmp += 'double '+str(p) + ' = XXXXX ; // deliberate undeclared error!  USER needs to give numerical value\n'
     par_decl_str = tmp
 
     nlist = Robot.solution_nodes
-- 
2.43.0


From 51a5f6458a1ef998e589734964e02d43a0bb4488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 24/29] fix: generated C++ used versions of variables which it
 did not declare

---
 ikbtfunctions/output_cpp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 41cac6d..c9330b6 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -92,6 +92,8 @@ int ikin(double T[4][4], double solution_list[64][6]);
     #solution_groups = mtch.matching_func(Robot.notation_collections, Robot.solution_nodes)
     for s in solution_groups:
         sol_vars.update(s)
+    for row in Robot.FinalEqnMatrix:  # (some versions are in no solution group)
+        sol_vars.update([str(e.LHS) for e in row])
 
     #  Variable Declarations
     tmp = 'double'
-- 
2.43.0


From 704f22f83199d1b07eb1193a176dbc2f43e3a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 25/29] fix: generated C++ wrote beyond the rows of its
 solution list for robots with more than 6 solved variables

---
 ikbtfunctions/output_cpp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index c9330b6..9f1f282 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -59,6 +59,11 @@ def output_cpp_code(Robot, solution_groups):
     fixed_name = fixed_name.replace('test: ','')
     orig_name  = Robot.name.replace('test: ', '')
 
+    # size of the list of solutions (at least 64 x 6)
+    ncols = max([6] + [len(s) for s in solution_groups])
+    nrows = max([64, len(solution_groups)])
+    listdim = '[' + str(nrows) + '][' + str(ncols) + ']'
+
     c = cpp_output()
 
     DirName = 'CodeGen/Cpp/'
@@ -80,7 +85,7 @@ double pi = 3.1415926;
 
 // ikin_Wrists modifies solution_list in-place and
 // returns 1 for valid solutions and 0 for no solutions
-int ikin(double T[4][4], double solution_list[64][6]);
+int ikin(double T[4][4], double solution_list''' + listdim + ''');
 
 ''')
 
@@ -116,7 +121,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     c.line('int main()')
     c.push()
     c.line('double T[4][4] = { {1,0,0,0},{0,1,0,0},{0,0,1,0},{0,0,0,1}, };' )
-    c.line('double sol_list[64][6] = {0};  // list of solutions')
+    c.line('double sol_list' + listdim + ' = {0};  // list of solutions')
     c.line('if('+funcname+'(T, sol_list))')
     c.push()
     c.line('std::cout << sol_list;')
@@ -131,7 +136,7 @@ int ikin(double T[4][4], double solution_list[64][6]);
     # ik function
     c.line('\n// Code to solve the unknowns ')
     c.line('\n\n// Declarations')
-    c.line('int ' + funcname + '(double T[4][4], double solution_list[64][6] )')  # no indent
+    c.line('int ' + funcname + '(double T[4][4], double solution_list' + listdim + ' )')  # no indent
     c.push()
     c.line('''\n//define the input vars
 double r_11 = T[0][0];
-- 
2.43.0


From 1793d716df45ea78cbc6c2736d25e635d448cd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 26/29] fix: generated C++ had wrong or no code for solutions
 by arcsin, arccos or sinANDcos, integer division and invalid powers

---
 ikbtfunctions/output_cpp.py | 56 ++++++++++---------------------------
 1 file changed, 14 insertions(+), 42 deletions(-)

diff --git a/ikbtfunctions/output_cpp.py b/ikbtfunctions/output_cpp.py
index 9f1f282..10bc2a9 100644
--- a/ikbtfunctions/output_cpp.py
+++ b/ikbtfunctions/output_cpp.py
@@ -185,17 +185,6 @@ int False = 0;
             c.line('\n// solution '+str(solno))
             solno += 1
             solrhs = str(solEqnVer.RHS)
-            # detect arcsin() or arccos()
-            #
-            #  BH   21-Sept
-            #  This code needs a serious refactor.  When solution is for example:
-            #    th5_ijk = arcsin(x) + atan2(y1,x1)
-            #       (here 'x' is a complicated expression)
-            #  then it is important that the generated code will test  -1 < x < +1
-            #  if this test fails the pose is unreachable and arcsin fails.
-            #
-            #
-            trig = False
             print('\n\nCpp Output Gen: Studying node: ', node.symbol, ' solution ', solno)
             print('solvemethod: ', node.solvemethod)
             print(' LHS: ', str(solEqnVer.LHS))
@@ -206,37 +195,20 @@ int False = 0;
             c.line('// solvemethod: ' + node.solvemethod )
             c.line('//    argument: ' + str(node.argument )  )
 
-            if(node.solvemethod == 'arcsin' or node.solvemethod == 'arccos'):
-               trig = True
-
-            if(trig):
-               print('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
-               c.line('// Arcsin() or Arccos() based solution:')
-               c.line('argument = ' + str(node.argument))
-               c.line('if (solvable_pose && fabs(argument) > 1)')
-               c.push()
-               c.line('solvable_pose = False; ')
-               c.pop()
-               c.line('else if (solvable_pose)')
-               c.push()        #  bugus    (here)
-               c.line(str(solEqnVer.LHS) + ' = '+node.solvemethod+'(argument);' )
-               c.pop()
-
-            if ((not trig) and 'atan2(y,x)' in node.solvemethod):
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'algebra' in node.solvemethod:
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-            if 'x2z2' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
-
-
-
-            if 'simultaneous eqn' in node.solvemethod:
-                print('x2z2 output: ', node.argument)
-                c.line(str(solEqnVer.LHS) + ' = ' + solrhs + ';')
+            # every argument of asin()/acos() has to be in range
+            trigargs = sorted(sp.ccode(e.args[0]) for e in solEqnVer.RHS.atoms(sp.asin, sp.acos))
+            if len(trigargs) > 0:
+                print('  Found asin/acos solution ...', solEqnVer.LHS , ' "=" ',solEqnVer.RHS)
+                c.line('// Arcsin() or Arccos() based solution:')
+                for arg in trigargs:
+                    c.line('argument = ' + arg + ';')
+                    c.line('if (fabs(argument) > 1)')
+                    c.push()
+                    c.line('solvable_pose = False; ')
+                    c.pop()
+
+            # (whatever the solve method: same equations as in the other outputs)
+            c.line(str(solEqnVer.LHS) + ' = ' + sp.ccode(solEqnVer.RHS) + ';')
 
 
 
-- 
2.43.0


From 8862fbcf016382c6c97d82d147b0843bbae5dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:27 +0000
Subject: [PATCH 27/29] fix: forward_kinematics_N failed for robots with twist
 angles which are not multiples of 90 degrees

---
 ikbtbasics/kin_cl.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ikbtbasics/kin_cl.py b/ikbtbasics/kin_cl.py
index 9110625..e8a3571 100644
--- a/ikbtbasics/kin_cl.py
+++ b/ikbtbasics/kin_cl.py
@@ -528,7 +528,15 @@ class mechanism:
 def forward_kinematics_N(M, pose, params):
     pp = pose.copy()
     pp.update(params)    # combine the pose and the params
-    T1 = sp.N(M.T_06.subs(pp))    # substitute for all symbols (including sp.pi)
+    # constants ca1, sa1 etc. which forward_kinematics() put in for cos/sin(alpha)
+    consts = {}
+    for i in range(6):
+        alpha_i = M.DH[i,0]
+        if not (sp.sin(alpha_i) == 0 or sp.cos(alpha_i) == 0):
+            consts[sp.Symbol(f'ca{i}')] = sp.cos(alpha_i)
+            consts[sp.Symbol(f'sa{i}')] = sp.sin(alpha_i)
+    pp = {p: v for p,v in pp.items() if p not in consts}   # (strings in M.pvals)
+    T1 = sp.N(M.T_06.subs(consts).subs(pp))    # substitute for all symbols (including sp.pi)
 
     # test to make sure all symbols are substituted with numeric values
     Num_check(T1)     # this quits if fails
-- 
2.43.0


From 6030d23b6febbdfba2bd758446957b70a22d05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:40 +0000
Subject: [PATCH 28/29] fix: list of open nodes named the wrong nodes when a
 node closed above a RUNNING one

---
 b3/core/tick.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/b3/core/tick.py b/b3/core/tick.py
index e828da3..50443ae 100644
--- a/b3/core/tick.py
+++ b/b3/core/tick.py
@@ -60,7 +60,7 @@ class Tick(object):
 
         :param node: a node instance.
         '''
-        self._open_nodes.pop()
+        self._open_nodes.remove(node)
 
     def _exit_node(self, node):
         '''Called when exiting a node (called by BaseNode).
-- 
2.43.0


From 193840f6bfbb4ebb4a486f820868ef1b79e30148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:40 +0000
Subject: [PATCH 29/29] fix: stored kinematics used after the joint kinds or
 the unknowns of the table were changed

---
 ikbtbasics/ik_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ikbtbasics/ik_classes.py b/ikbtbasics/ik_classes.py
index 6604b94..64f640c 100644
--- a/ikbtbasics/ik_classes.py
+++ b/ikbtbasics/ik_classes.py
@@ -87,6 +87,9 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
                 [m, R, unknowns]  = cached = pickle.load(pick)
             print('Successfully read pre-computed forward kinematics')
             print('pickle contained ', len(unknowns), ' unknowns')
+            # the kinds of the joints and the unknowns enter the stored equations
+            if list(m.vv) != list(vv) or R.table_unknowns != [str(u.symbol) for u in unks]:
+                raise ValueError('computed for other joint kinds or unknowns')
             # parameter names and values do not enter the FK equations, so use the
             #   current ones.  Only the cos/sin(alpha) constants, which
             #   forward_kinematics() adds with a string value, come from the pickle.
@@ -114,6 +117,7 @@ def kinematics_pickle(rname, dh, constants, pvals, vv, unks, test):
 
         # set up Robot Object instance
         R = Robot(m, rname)              # set up IK structs etc
+        R.table_unknowns = [str(u.symbol) for u in unks]  # (before SOAs are added)
         R.scan_for_equations(unks)       # generate equation lists
 
         # below is commented out for testing and devel of sum_of_angles_transform
-- 
2.43.0

